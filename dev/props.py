I=['inputs']
prop('P01','Small-matrix and vector arithmetic is exact linear algebra',
 'For matrices and vectors of the small sizes the library works with, determinant, adjoint, inverse, transpose, products, trace, similarity transforms, dot/cross products and norms equal their mathematical definitions, in-place and aliased forms included; a singular matrix is refused rather than inverted. Rounding to integers, integer tests and the exact sine/cosine of special angles agree with their definitions.',
 I,'all matrix and vector entries (reals; integers within stated ranges), each dimension up to the bound',
 'linalg_test and math_test compare a handful of fixed matrices; an index slip that leaves those values unchanged, or a dimension no test uses, passes.',
 ['src/utilities.hpp','src/utilities.tpp','src/math.hpp'],[('templated fixed and run-time size matrix kernels','src/utilities.tpp'),('exact trigonometry of multiples of 30 and 45 degrees','src/math.hpp')])
prop('P02','Integer helpers are exact or refuse: gcd, binomials, sign conversion',
 'The greatest common divisor divides both numbers and is divisible by every common divisor. Binomial coefficients are exact, and are refused with an exception when undefined or when the result does not fit. Converting between signed and unsigned integers of any width preserves the value or raises an exception; it never yields a different number.',
 I,'all integers of the types within the stated ranges','Tests use a few small values; overflow and truncation appear only near type limits.',
 ['src/utilities.hpp','src/utilities.tpp'],[('checked conversion','src/utilities.hpp: u2s, s2u'),('gcd, binomial_coefficient','src/utilities.tpp')])
prop('P03','Approximate comparison follows its tolerance, is symmetric and consistent',
 'Two numbers compare approximately equal exactly when their difference is within the absolute tolerance plus the relative tolerance times the magnitude of their sum; the comparison is symmetric, reflexive, never true for NaN, exact for integers, and a larger tolerance never separates what a smaller one joined. For vectors, matrices and strided data it is the conjunction over the elements. The ordering comparisons are consistent with it: exactly one of less, equal, greater holds for each pair, and each negated comparison is the negation.',
 I,'all numbers and tolerances (reals, integers, IEEE doubles where stated), lengths up to the bound','Every later decision in the library (unique points, vertices, symmetry) rests on this predicate; tests use it but never examine its boundary.',
 ['src/approx_float.hpp','src/approx_config.hpp','src/comparisons.hpp','src/comparisons.cpp'],[('tolerance rule','src/approx_float.hpp: _scalar, _array'),('comparison functors','src/comparisons.hpp: Comparer')])
prop('P04','Assignment solvers return a complete matching of minimal total cost',
 'For every square cost matrix both the Munkres and the shortest-augmenting-path solver return a one-to-one assignment of rows to columns whose total cost is minimal over all permutations. Row and column solutions are inverse to each other, and reported costs and dual variables are consistent with the matrix.',
 I,'all cost matrices up to the stated sizes and ranges','munkres_test solves three fixed matrices; ties, degenerate zeros and row orders that need several augmentations are not sampled.',
 ['src/munkres.hpp','src/lapjv.hpp'],[('Munkres step machine','src/munkres.hpp'),('Jonker-Volgenant','src/lapjv.hpp')])
prop('P05','Stable matching leaves no pair that prefers each other to their partners',
 'For every square preference matrix the stable matching returns a one-to-one assignment in which no row and column both strictly prefer each other to the partners they were given, and row and column results agree with each other.',
 I,'all preference matrices up to 3x3, with and without ties','No test exercises it.',
 ['src/smp.hpp'],[('Gale-Shapley proposals','src/smp.hpp: smp')])
prop('P06','Subscript and linear index are inverse; iteration and broadcasting are exact',
 'Converting a subscript to a linear index and back is the identity for every shape, for row- and column-ordered strides, and stays in bounds. Iterating over a shape visits every subscript exactly once, in order, and ends (also for empty shapes and with fixed dimensions). Broadcasting two shapes yields the element-wise maximum, pairs each output subscript with the right input subscripts, and refuses incompatible shapes.',
 I,'all shapes of up to three dimensions and extents up to the bound','subscript_test prints or checks a few shapes; empty dimensions and column order are not covered.',
 ['src/subscript.hpp','src/array_post.hpp'],[('stride arithmetic','src/subscript.hpp: sub2lin, lin2sub'),('SubIt, BroadcastIt','src/subscript.hpp')])
prop('P08','Vertex sorting flags and visit counter never disturb each other',
 'The sorted, locked, queued and claimed flags and the visit counter of a sorting status are independent: setting any of them reads back as set and changes no other. Visit counts beyond the representable maximum are refused, and a limited visit locks the vertex when the limit is reached.',
 ['inputs','histories'],'all states and all sequences of operations up to the bound','No test exercises the packed bit field; a wrong mask only shows for particular combinations.',
 ['src/sorting_status.hpp'],[('packed flags and counter','src/sorting_status.hpp: SortingStatus')])
prop('P10','Array indexing, views, extraction and reshaping reach the right elements',
 'However an array is laid out in memory (row- or column-ordered, a contiguous range, or a strided view of a larger array) every way of addressing an element (subscripts, linear index, pointers, iterators, views of rows) reaches the same element. Views, extraction by index list or mask, appending, resizing, reshaping, swapping and permuting rows produce exactly the elements their definition names, never an element outside of the view, and leave others unchanged.',
 I,'all element values, shapes up to the bound, six memory layouts, all index lists up to the bound','No stable test exercises arrays; stride errors appear only for views and column-ordered data.',
 ['src/array2.hpp','src/array2.tpp','src/array.hpp','src/array.tpp'],[('stride and shift arithmetic','src/array2.hpp: l2l_d, s2l_d, ij2l_d'),('views and extraction','src/array2.tpp')])
prop('P11','Array arithmetic, broadcasting and reductions equal the element-wise definitions',
 'Sums, differences, products and quotients of arrays with arrays, scalars and fixed-size vectors are element-wise with broadcasting of singleton dimensions, for every memory layout and for in-place forms; operands are not changed and incompatible shapes are refused. Sum, product, minimum and maximum over a dimension and over all elements, rounding, dot and cross products and norms equal their definitions.',
 I,'all element values (reals), shapes up to the bound, all layout pairs','No stable test; order of operands, views and column-ordered operands are each separate code paths.',
 ['src/array2.hpp','src/array2.tpp','src/array.hpp','src/array.tpp','src/array_functions.hpp','src/array_post.hpp'],[('broadcast arithmetic','src/array_post.hpp'),('reductions','src/array2.tpp: sum, prod, min, max')])
prop('P12','Arrays that share data never corrupt each other, leak or dangle',
 'Copies and views of arrays may share memory, but decoupling, assignment, appending, extracting and destroying one array in any order never changes the contents of an array that does not share its elements, never reads or frees memory twice, and a view keeps its elements alive after its parent is gone.',
 ['inputs','histories'],'all histories of the stated length over the copy, move, view, decouple, extract and append operations','Ownership errors need particular sequences of operations; tests never form them.',
 ['src/array2.hpp','src/array2.tpp','src/array.hpp','src/array.tpp'],[('reference counting of raw storage','src/array2.hpp: _own, _ref'),('decouple and copy','src/array2.tpp')])
prop('P13','Array comparison, search, uniqueness and permutation queries are exact',
 'Element and row comparisons, all/any/count/first/last/find, row matching, the list of unique rows with the index mapping onto them, and the test whether two arrays are row permutations of each other (with the permutation) agree with the definition by pairwise comparison under the given tolerance, for every memory layout.',
 I,'all element values, shapes up to the bound, all layouts, the listed tolerances','No stable test; unique and permutation logic drives vertex and symmetry bookkeeping where repeated rows matter.',
 ['src/array2.hpp','src/array2.tpp','src/array.tpp','src/comparisons.hpp'],[('row comparisons','src/array2.tpp: is, row_is, first, last, find'),('unique rows','src/array2.tpp: is_unique, unique_idx'),('permutations','src/array2.tpp: is_permutation, permutation_vector')])
prop('P07','Permutations: applying, inverting and the table of pairwise permutations',
 'Applying a permutation to a list of objects moves object p[i] to place i for every permutation, and applying the inverse permutation undoes it. The table of pairwise permutations behaves as a map: after any sequence of insertions, overwrites, key insertions and refreshes each ordered pair returns the permutation last stored for it, the identity if none was stored, and unknown pairs cannot be overwritten. Permutations found by assignment have minimal total cost within the tolerance of the solver and come with their inverse.',
 ['inputs','histories'],'all permutations and histories of operations up to the bound','Cycle structure and the order of table operations matter; no test exercises either.',
 ['src/permutation.hpp','src/permutation_table.hpp'],[('in-place cycles','src/permutation.hpp: apply_permutation, apply_inverse_permutation'),('pair map','src/permutation_table.hpp: PermutationTable')])
prop('P35','Vertex maps keep every node vertex at its own position when merged',
 'When workers each record which vertices their nodes use, as indices into shared original vertices or into their own added ones, then adding, combining, reducing (serially or in parallel steps) and consolidating those records leaves every node vertex index pointing at the position that was recorded. Equal positions share one index, different positions never do, no vertex of the result is duplicated or unused, and records which claim the same node are refused.',
 ['inputs','histories'],'all vertex positions out of the stated set for all workers, numbers of workers and additions up to the bound','Index renaming collides only for particular overlaps between workers; tests use one worker on one shape.',
 ['src/vertex_map_set.h','src/vertex_index_map.h','src/vertex_map_knit.h'],[('preserved and appended vertices','src/vertex_map_set.h: VertexMapSet'),('merging','src/vertex_map_knit.h: combine, consolidate_pair')])
prop('P20','Symmetry motions compose, invert, compare and act on vectors as affine maps',
 'A motion (rotation part W and translation w) takes a point x to W x + w, a vector to W x and an axial vector to det(W) W x. Composition equals applying one motion after the other, the inverse undoes it, equality is equality of the rotation with translations equal up to lattice vectors, and an origin shift by a basis offset changes only the translation. Lists of motions keep, find, erase and replace exactly the motions named, and are equal exactly if they hold the same motions.',
 I,'all rotation parts of the stated set and all translations in range','No stable test covers motions; the wrong sign or order of a product shows only for operations which do not commute.',
 ['src/symmetry.hpp','src/symmetry.cpp'],[('affine algebra','src/symmetry.hpp: Motion'),('lists of motions','src/symmetry.cpp: Symmetry')])
prop('P21','Symmetry operations survive the x,y,z text form, and any text is read safely',
 'Writing a motion or a list of motions as x,y,z text and reading it back gives the same motion. Reading text gives the operation the text denotes for every order of terms, sign, factor, fraction and spacing that is accepted. No text, however malformed, makes the reader access memory out of bounds.',
 I,'all texts of the grammar up to the bound, all short strings over the alphabet','Round trips fail only for negative or fractional translations or unusual spacing; no stable test reads text.',
 ['src/symmetry.hpp','src/symmetry.cpp','src/pointsymmetry.cpp','src/pointsymmetry.hpp'],[('text form of a motion','src/symmetry.hpp: Motion::from_ascii, to_ascii'),('text form of rotations','src/pointsymmetry.hpp')])
prop('P22','Generating from motions yields exactly the group they generate',
 'The set generated from a list of rotations or of motions is the smallest set that contains them and is closed under composition: it holds the identity and every inverse, no operation twice, and nothing that is not a product of the generators. The centring derived from the pure translations of the group is that of the translations.',
 I,'all pairs of generators out of the cubic and hexagonal point groups with the stated translations','Generation that stops early gives the right group for most generators and an incomplete one for a few.',
 ['src/symmetry.cpp','src/pointsymmetry.cpp'],[('closure','src/symmetry.cpp: Symmetry::generate; src/pointsymmetry.cpp: PointSymmetry::generate'),('centring','src/symmetry.cpp: Symmetry::getcentring')])
prop('P23','A Hall symbol is decoded into the generators it denotes',
 'Every well-formed Hall symbol decodes into the lattice translations of its letter, inversion if it is centrosymmetric, and for each Seitz part the rotation of the stated order about the stated or implied axis in the right sense with the stated screw and translation letters; an origin shift v changes the translations by v - Wv. Writing the symbol as text and reading it back gives the same generators. Malformed text is refused without out-of-bounds access.',
 I,'all symbols of the grammar up to the bound','Implied axes and screw components depend on combinations of order, position and preceding rotation that no stable test touches.',
 ['src/hall_symbol.hpp','src/hall_symbol.cpp'],[('parsing','src/hall_symbol.cpp: from_ascii'),('Seitz matrices','src/hall_symbol.cpp: SeitzSymbol::getr, gett'),('generators','src/hall_symbol.cpp: HallSymbol::get_generators')])
prop('P24','Each tabulated space group is a group with its stated centring and point group',
 'For each of the 530 tabulated settings, the operations made from its Hall symbol are closed under composition, contain exactly the centring translations of its stated Bravais letter, and have the stated point group; time reversal adds inversion once. Looking up a Hall symbol, an international number or any international name (with choice) finds the first matching setting; numbers out of range and unknown names are refused.',
 I,'all table entries, all names','Tests open a few space groups; a wrong entry affects one setting only.',
 ['src/spg_database.cpp','src/spg_database.hpp'],[('table','src/spg_database.cpp: ALL_SPACEGROUPS'),('lookup','src/spg_database.cpp: international_number_to_hall_number, string_to_hall_number')])
prop('P25','Point operations are classified, inverted, sorted and linked correctly',
 'For every crystallographic point operation the reported order, isometry, axis, perpendicular vectors and inverse are those of the matrix. Sorting and filtering by order keep exactly the operations asked for, linking operations between two vectors are all found, duplicates (with time reversal also inverted ones) are removed exactly once, and every set of operations forming a crystallographic point group is recognised as that group, with a right-handed transformation.',
 I,'all operations and vectors in the stated range, all 32 point groups','Classification errors show for a single isometry; no stable test exercises them.',
 ['src/pointsymmetry.cpp','src/pointsymmetry.hpp','src/pointgroup.cpp','src/pointgroup.hpp'],[('isometry and axis','src/pointgroup.cpp: isometry_value, rotation_axis_and_perpendicular_vectors'),('classification','src/pointgroup.cpp: get_pointgroup_number'),('operation lists','src/pointsymmetry.cpp: PointSymmetry')])
prop('P26','Real and reciprocal lattices are dual, agree with their input and its symmetry',
 'A lattice made from lengths and angles (in any unit, real or reciprocal) or from basis vectors (rows or columns) reports those parameters, its real and reciprocal vectors satisfy a_i . b_j = 2 pi delta_ij, and its metrics, volumes and coordinate conversions follow from them. It carries the space group, point group and centring of its symbol. Parameters that enclose no volume are refused. Snapping to symmetry makes the metric invariant under the point group (to second order in the deviation), keeps duality and orientation, moves parameters by no more than their deviation and does not change a lattice that already has the symmetry. Comparing lattices is symmetric and reflexive.',
 I,'all real lattice parameters in range at the tabulated angles','The stable tests contain no lattice at all.',
 ['src/lattice_dual.hpp','src/linear_algebra.hpp'],[('duality','src/lattice_dual.hpp: Impl::set_vectors, dual_lattice_parameters'),('snapping','src/lattice_dual.hpp: snap_to_symmetry, standard_orientation_matrix')])
prop('P27','Primitive and conventional lattices describe the same points and vectors',
 'For every centring the primitive basis has the volume of one lattice point and contains every centring translation, the two transformation matrices are inverse, and the primitive lattice is dual with consistent metric. A vector transformed to the primitive lattice, serially or in parallel, is the same vector in space; transforming there and back changes nothing; vectors of another lattice are refused.',
 I,'all centrings, all vectors in range','Errors affect one centring only; no stable test constructs one.',
 ['src/primitive.hpp','src/transform.hpp','src/lattice_dual.hpp'],[('tables','src/primitive.hpp: PrimitiveTransform'),('vector transforms','src/transform.hpp: transform_to_primitive, transform_from_primitive')])
prop('P28','Lattice vector algebra equals the algebra of the vectors in orthonormal space',
 'Dot and cross products, norms, the dual-space form, orientation of four points and conversion to and from orthonormal coordinates of direct or reciprocal lattice vectors agree with those of the same vectors in orthonormal space. Arithmetic, rounding, concatenation and extraction act on components and keep the lattice; vectors of different lattices or spaces are never silently combined in products or concatenations.',
 I,'all components in range for one general lattice','No stable test; a missing metric or factor 2 pi is invisible for orthonormal lattices.',
 ['src/array_lvec.hpp','src/array_lvec_methods.tpp','src/array_functions.hpp','src/array_l_functions.hpp','src/transform.hpp'],[('metric products','src/array_functions.hpp: dot, cross, star, norm'),('orthonormal coordinates','src/array_lvec_methods.tpp: xyz, star, cross; src/transform.hpp')])
prop('P29','Symmetry maps atoms of the basis onto equivalent atoms, or is refused',
 'An atom is equivalent to a position exactly if type and position modulo lattice vectors agree within tolerance, and the first such atom is returned. After snapping, every operation takes every atom to an equivalent atom of the same type, permuting the atoms; a symmetric basis is not changed, atoms near special positions are moved onto them, and a basis without the symmetry is refused.',
 I,'all coordinates in range','No stable test contains atoms.',
 ['src/basis.hpp'],[('equivalence','src/basis.hpp: equivalent_to, closest_to'),('snapping','src/basis.hpp: snap_to')])
prop('P30','Polyhedra: hull, volume, containment and cutting describe the same body',
 'The convex hull of points has exactly one outward face per facet, whatever the order of the points and whichever further points lie on or inside it. Volume, centroid, face normals, edges and circumsphere agree with the body, and a point is contained exactly if it is behind every face. Cutting with a plane keeps exactly the points behind it: the two parts are closed and their volumes add up; intersections contain exactly the common points. Moved, mirrored, rotated and combined polyhedra are the images of the original.',
 I,'all points, plane offsets and affine images in range','No stable test builds a polyhedron; errors need corners on the cutting plane, degenerate faces, duplicate points or a skewed lattice to show.',
 ['src/polyhedron_faces.hpp','src/polyhedron_faces.cpp','src/polyhedron_flex.hpp','src/geometry.hpp'],[('convex hull','src/geometry.hpp: find_convex_hull_planes, polygon_faces'),('containment','src/geometry.hpp: point_inside_all_planes'),('cutting','src/polyhedron_faces.hpp: one_cut, cut'),('copies','src/polyhedron_flex.hpp: apply, mirror, combine')])
prop('P33','The first Brillouin zone and moving points into it are exact',
 'The first Brillouin zone of any lattice and centring is the set of points at least as near to the origin as to any other reciprocal lattice point: its faces bisect lattice vectors and its volume is that of the primitive reciprocal cell. For every point Q, moveinto finds q and tau with Q = q + tau, where tau is a vector of the (primitive or conventional, as configured) reciprocal lattice and q lies in the zone; single points, lists, any thread count and primitive coordinates alike. Points of a foreign lattice are refused.',
 I,'all positions of Q in range','All tests of the Brillouin zone need HDF5 and do not run here; they sample random points, and miss positions on zone boundaries and centrings they do not list.',
 ['src/bz.cpp','src/bz.hpp','src/bz_move.cpp','src/neighbours.cpp','src/primitive.hpp','src/transform.hpp'],[('search for the zone','src/bz.cpp: voro_search'),('moving','src/bz_move.cpp: part_moveinto_prim, moveinto')])
prop('P34','The irreducible zone is one fair share, and every point maps into it',
 'For every space group setting, with or without time reversal, the irreducible Brillouin zone is a part of the first zone whose volume is that of the zone divided by the number of point operations, and no two of its inner points are related by an operation. For every point Q, ir_moveinto finds an operation R, a lattice vector tau and a point q in the irreducible zone with Q = R^T q + tau, and reports R and its inverse consistently; ir_moveinto_wedge does the same without tau for the irreducible wedge.',
 I,'all space group settings; all positions of Q and of inner points in range','All tests of the irreducible zone need HDF5 and do not run here; a wrong cut for one setting, or a transposed operation, leaves others untouched.',
 ['src/bz_wedge.cpp','src/bz_move.cpp','src/bz.hpp','src/bz.cpp'],[('search for the wedge','src/bz_wedge.cpp: wedge_brute_force, wedge_triclinic'),('moving','src/bz_move.cpp: ir_moveinto, ir_moveinto_wedge'),('checking','src/bz.cpp: check_ir_polyhedron')])

prop('P31','Meshes, nests and trellises fill their polyhedron exactly once',
 'Every triangulation of a convex polyhedron (simple, layered mesh, nested tree, trellis of boxes and triangulated nodes) is made of cells with positive volume which stay within the polyhedron, whose volumes add up to its volume, and such that every point of the polyhedron is in a cell; the corners of the polyhedron are vertices, and so is the zone centre if it was asked for and lies in the polyhedron. Boxes of a trellis respect the maximum volume, and inner nodes are boxes only if this is not forbidden.',
 I,'all points of the polyhedron','Gaps or overlaps affect only the points in one cell; all tests which build meshes need HDF5 and do not run here.',
 ['src/triangulation_simple.hpp','src/triangulation_poly.hpp','src/triangulation_layers.hpp','src/array_tetgen.hpp','src/nest.tpp','src/trellis_poly_parallel.tpp','src/mesh.hpp'],[('triangulation','src/triangulation_simple.hpp: SimpleTet'),('nest','src/nest.tpp: construct, subdivide'),('trellis','src/trellis_poly_parallel.tpp: construct, part_one, part_two')])
prop('P32','Interpolation is found anywhere in the zone and exact for affine data',
 'For every point of the polyhedron, a mesh, nest or trellis finds vertices of one of its cells with non-negative weights which sum to one and whose weighted positions give the point. Interpolated affine data, scalars and vectors, therefore equals the affine function at the point, at the vertices the stored data is returned, for one or many points, with or without threads, and the results have the shape of the data. Points outside of a mesh or a nest, and data for another number of points than there are vertices, are refused and never read memory they should not.',
 I,'all points on lines through the polyhedron; all data values at the vertices','Wrong weights show only for points in certain cells, on shared faces, or for lattice coordinates; all tests which interpolate need HDF5 and do not run here.',
 ['src/trellis_node.hpp','src/trellis_poly.hpp','src/nest.hpp','src/mesh.hpp','src/triangulation_layers.hpp','src/interpolatordual.hpp','src/interpolator_at.tpp'],[('weights','src/trellis_node.hpp: indices_weights; src/triangulation_layers.hpp: locate; src/nest.hpp: indices_weights'),('finding the cell','src/trellis_poly.hpp: node_subscript, indices_weights'),('interpolation','src/mesh.hpp, src/nest.hpp, src/trellis_poly.hpp: interpolate_at')])
prop('P40','Interpolation combines the data of each point linearly, shape and phase kept',
 'Interpolating adds, for one point of the result, the weighted data of the contributing points, branch by branch in the order of the given permutations, and changes no other point and not the stored data. If the phase is free, a contribution is first multiplied by a unit phase which aligns it with the first point, so a common phase of the data does not matter. Data is accepted exactly if the numbers of scalar, vector and matrix elements fit its shape; refused data changes nothing and values and vectors always agree in points and branches.',
 I,'all data values and weights; all shapes and element counts in range','All tests which interpolate need HDF5 and do not run here; a slip in one branch of the formats or for zero weights stays unseen.',
 ['src/interpolator.hpp','src/interpolator_at.tpp','src/interpolatordual.hpp'],[('interpolate_at','src/interpolator_at.tpp'),('shapes and elements','src/interpolator.hpp: check_elements, replace_data')])
prop('P41','Interpolated data is rotated by the right operation, atoms and phases included',
 'Moving a point of the zone by a point operation rotates interpolated vectors and matrices with components along real or reciprocal lattice vectors or orthonormal axes accordingly, axial vectors with the sign of the determinant, leaves scalars alone, and takes eigenvectors and tensors of atoms to the equivalent atoms of the space group operation with the Bloch phase of the cell in which they lie. Every point is treated alike, with or without threads. A basis without the symmetry of the lattice, unknown units and points of another lattice are refused.',
 I,'all data values; every operation of the listed crystals','All tests of rotations need HDF5 and do not run here; errors show only for operations of order above two, screw axes or basis atoms which change cells.',
 ['src/interpolator.hpp','src/interpolator_real.tpp','src/interpolator_recip.tpp','src/interpolator_axial.tpp','src/interpolator_gamma.tpp','src/phonon.hpp','src/rotates.hpp'],[('rotations','src/interpolator_real.tpp, src/interpolator_recip.tpp, src/interpolator_axial.tpp, src/interpolator_gamma.tpp'),('equivalent atoms','src/phonon.hpp: GammaTable')])
prop('P42','Modes are matched at minimal cost and consistently between points',
 'The cost of matching two branches is the weighted sum of the differences of their scalars, vectors and matrices (difference norms, angles or vector differences as chosen), zero only for branches which agree, and does not depend on the phase of complex vectors. Sorting stores for each pair of connected points a permutation of least cost and its inverse for the opposite direction; unconnected points keep their order. Interpolating combines the modes so matched.',
 I,'all data values in range','All tests of sorting need HDF5 and do not run here; a wrong inverse is invisible for two branches.',
 ['src/interpolatordual.hpp','src/interpolator_cost.tpp','src/permutation_table.hpp'],[('costs','src/interpolator_cost.tpp: add_cost'),('sorting','src/interpolatordual.hpp: sort, determine_permutation')])
prop('P43','Interpolating anywhere in reciprocal space uses the equivalent point, rotated',
 'For any Q, interpolating in the grid of an irreducible Brillouin zone gives the scalars of the one point q of that zone equivalent to Q, and the vectors of q rotated by the operation which takes q to Q up to a reciprocal lattice vector, whatever the kind of grid, the basis of the components and the number of threads. If the data at each point of the grid is its own position, the result is Q up to a reciprocal lattice vector. Points of high symmetry are always found. Without symmetry, interpolating gives the data of the equivalent point of the first zone.',
 I,'all positions of Q on lines through reciprocal space','All tests which interpolate need HDF5 and do not run here; a wrong pairing of point, operation and its inverse shows only for operations of order above two away from symmetry planes.',
 ['src/bz_trellis.hpp','src/bz_nest.hpp','src/bz_mesh.hpp','src/bz_move.cpp','src/interpolator.hpp'],[('interpolating','src/bz_trellis.hpp, src/bz_nest.hpp, src/bz_mesh.hpp: ir_interpolate_at'),('moving and rotating','src/bz_move.cpp: ir_moveinto; src/interpolator.hpp: rotate_in_place')])

prop('P50','What is saved to a file is what is read back',
 'Writing an object to an HDF5 file and reading it gives an equal object which behaves like the original: arrays of every memory layout (also without elements), motions, rotations, atoms, tolerances, lattices with centring, symmetry and basis whether or not they were snapped to symmetry, lattice vectors, permutation tables, interpolation data with shape, elements, rotation, unit and costs, Brillouin zones with their settings, and whole grids, which interpolate alike. Writing to an entry replaces what it held before; a missing file or entry is refused.',
 ['inputs','histories'],'all contents in range of the listed kinds of objects','All tests which save need HDF5 and do not run here; a member that is not stored, or read into another one, shows only when its value is not the default.',
 ['src/hdf_interface.hpp','src/array2.tpp','src/lattice_dual.hpp','src/interpolator.hpp','src/bz.hpp','src/trellis_poly.hpp','src/trellis_node.hpp','src/mesh.hpp'],[('lists and maps','src/hdf_interface.hpp: lists_to_hdf, map_to_hdf'),('objects','to_hdf and from_hdf of each class')])
