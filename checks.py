"""Registry: per property, the harness, the /repo sources linked in, the entries and their bounds."""
def E(name, what='', time=60, **k): return dict(name=name, what=what, time=time, **k)
def L(names, **k): return [E(n, **k) for n in names.split()]
CHECKS = {}
DP = ['debug', 'process_id']
CHECKS['P01'] = dict(harness='linalg.cpp', srcs=DP, bounds='real matrices 2x2 and 3x3 (all entries), rectangular products up to 3x4; integers within +-50; angles: every multiple of 15 degrees tabulated',
    outside='IEEE rounding; dimensions above the stated ones; generic (non-tabulated) angles use libm and are not modelled',
    entries=L('det det_int inverse inverse_int adjoint transpose array_transpose multiply multiply_vec multiply_cplx metric_similar similar trace_sums vectors hermitian rounding is_int trig_degrees trig_pairs', time=90))
CHECKS['P02'] = dict(harness='util.cpp', srcs=DP, bounds='gcd of numbers up to 24 (40 thorough); binomials n<=100 (400), k<=3 (4), and n in 58..70 near k=n/2; conversions: all values of 64-bit integers into 8, 16, 32, 64-bit types',
    outside='gcd of larger numbers', entries=[E('gcd_divides'), E('binomial'), E('binomial_invalid'), E('binomial_large'), E('to_signed', time=120), E('to_unsigned', time=150)])
CHECKS['P03'] = dict(harness='approx.cpp', srcs=DP + ['comparisons'], bounds='reals |x|<=100, tolerances in [0,1], multipliers 0, 1, 1000; all IEEE doubles (reflexivity, NaN) and floats (infinity, opposite signs); vectors up to 4',
    outside='IEEE rounding inside the tolerance rule', entries=L('scalar_spec scalar_mixed scalar_int containers monotone ieee_reflexive ieee_nan ieee_infinite ieee_far comparers comparers_tol comparers_int operators names'))
CHECKS['P04'] = dict(harness='assign.cpp', srcs=[], bounds='cost matrices: all real 2x2 (|c|<=50) and 3x3 (0<=c<=50); integers 3x3 with one free row; 4x4 with one free row (Munkres) or two free entries (lapjv); 5x5 with three free entries',
    outside='all-zero cost matrices for Munkres (it reports that it made no assignment); lapjv with negative total cost; IEEE rounding; larger matrices',
    entries=[E('munkres2','all real 2x2'),E('munkres3','all non-negative real 3x3'),E('munkres3i','integer 3x3, one free row'),E('munkres4','4x4 degenerate matrix, one free row'),E('munkres5','5x5 tie-heavy matrix, three free entries'),E('munkres_refill','cost filled in after construction'),
             E('jv1','1x1'),E('jv2','2x2'),E('jv3','all non-negative 3x3',time=120),E('jv4','4x4, two free entries',time=200)])
CHECKS['P05'] = dict(harness='util.cpp', srcs=DP, bounds='all 2x2 and 3x3 integer preference matrices (ties included), all real 3x3', outside='larger matrices', entries=[E('stable2'), E('stable3', time=90), E('stable3_ties', time=120), E('stable_real', time=120)])
CHECKS['P06'] = dict(harness='subscript.cpp', srcs=[], bounds='shapes of 1 to 3 dimensions with extents up to 3', outside='more dimensions, larger extents', entries=L('subit2 subit3 subit2_fixed subit3_fixed broadcast2 broadcast3 lin1 lin2 lin3 sub_roundtrip'))
CHECKS['P08'] = dict(harness='util.cpp', srcs=DP, bounds='all states; all sequences of 3 (thorough 4) operations', outside='', entries=[E('status_make'), E('status_ops', time=120)])
AR = DP + ['comparisons']
LAY = 'Array2 of up to 2x2 (some entries 3 rows) in six layouts: row- and column-ordered, row range, column range, every-row sub-block and broadcast views of a larger parent'
NLAY = '; N-dimensional arrays of 1 to 3 dimensions with extents up to 2 in five layouts (row- and column-ordered, row range, strided sub-block of row- and column-ordered parents)'
CHECKS['P10'] = dict(harness='arrays.cpp', srcs=AR, bounds=LAY+NLAY+'; all element values symbolic', outside='larger shapes', entries=L('access views extracts sets setfixed appends resizes reshapes swaps permutes empty fromstd n_access n_views n_extracts n_sets n_appends n_resizes n_reshapes n_swaps n_permutes n_convert n_types'))
CHECKS['P11'] = dict(harness='arrays.cpp', srcs=AR, bounds=LAY+NLAY+'; real elements', outside='IEEE rounding; larger shapes', entries=L('scalar_ops array_ops array_refused stdarray_ops reductions rounding products n_scalar n_array n_reductions n_rounding n_products'))
CHECKS['P12'] = dict(harness='arrays.cpp', srcs=AR, bounds='histories of 3 (thorough 4) operations on 3 arrays; every view layout outliving its parent', outside='longer histories; concurrent use', entries=[E('copies'), E('histories', time=120), E('outlive'), E('n_outlive')])
CHECKS['P13'] = dict(harness='arrays.cpp', srcs=AR, bounds=LAY+NLAY+'; integers and reals with tolerances 0 and 1/8', outside='larger shapes', entries=L('compare_scalar all_le_ge quantifiers compare_array compare_refused compare_tol uniques uniques_tol permutations permutation_tol matches n_compare n_quantifiers n_compare_array n_unique n_match', time=90))
CHECKS['P07'] = dict(harness='perm.cpp', srcs=AR+['hdf_interface'], bounds='permutations of up to 4 (thorough 5) objects; tables over 3 points and 2 branches, histories of 3 (4) operations; index lists of up to 3 out of 4; 3x3 cost matrices with one free row', outside='larger tables; concurrent use', entries=[E('apply'),E('apply_rows'),E('table',time=120),E('refresh'),E('pair_keys'),E('jv_vectors',time=90)])
CHECKS['P35'] = dict(harness='vmap.cpp', srcs=AR+['vertex_map_set'], bounds='1 to 3 original vertices; up to 3 (thorough 4) additions per set; 2 or 3 workers with up to 2 vertices each; positions from 4 (5) symbolic values', outside='positions closer than the tolerance; larger sets; concurrent use of one set', entries=[E('adds'),E('origin'),E('combine',time=90),E('combine_again',time=90),E('reduces',time=120),E('clash'),E('index_map')])
XT = AR + ['hdf_interface', 'bravais', 'symmetry', 'pointsymmetry', 'pointgroup', 'spg_database', 'hall_symbol']
GRID = 'translations: reals in (-2,2) where symbolic, otherwise multiples of 1/12'
CHECKS['P20'] = dict(harness='motion.cpp', srcs=XT, bounds='rotation parts: the 64 signed permutations and hexagonal operations, or any integers within +-1 or +-2; '+GRID, outside='IEEE rounding; rotation parts with larger entries',
    entries=L('compose_rot compose points vectors axial inverse inverse_int equality shifted parts basis_shift sym_list sym_find sym_equal', steps=20000000))
CHECKS['P21'] = dict(harness='motion.cpp', srcs=XT, bounds='all x,y,z texts of the listed grammar (signs, factors, fractions, decimals, spaces, one to five components); all 5-character strings of a 12 letter alphabet for robustness', outside='longer texts; locale',
    entries=[E('text_round',time=120),E('text_parse',time=120),E('text_points',time=90),E('text_any',time=120)])
CHECKS['P22'] = dict(harness='motion.cpp', srcs=XT, bounds='generators: up to two out of the 48 cubic or 24 hexagonal point operations; one or two motions with translations in multiples of 1/2, 1/3, 1/4; every centring letter', outside='more generators, other translations',
    entries=[E('rot_group_cubic',time=200,steps=50000000),E('rot_group_hex',time=120,steps=50000000),E('motion_group_a',time=200,steps=1000000000),E('motion_group_b',time=120,steps=50000000),E('centring',time=60)])
CHECKS['P23'] = dict(harness='spacegroup.cpp', srcs=XT, bounds='Hall symbols of every lattice letter with one or two Seitz parts (every order, axis, screw, diagonal and translation letter), with and without inversion, integer origin shifts -3..6; every 4-character string of a 21 letter alphabet for robustness', outside='three or more Seitz parts outside of the 530 tabulated symbols (see P24); change-of-basis matrices',
    entries=[E('hall_one',time=90,steps=20000000),E('hall_two',time=90,steps=20000000),E('hall_shift',time=60,steps=20000000),E('hall_text',time=90,steps=20000000),E('hall_any',time=200)])
CHECKS['P24'] = dict(harness='spacegroup.cpp', srcs=XT, bounds='all 530 Hall numbers, all 230 international numbers, every name and choice of the table; Hall numbers -5 to 700 for refusal', outside='names which are not in the table, except three',
    entries=[E('table_groups',time=200,steps=2000000000),E('table_lookup',time=90,steps=50000000),E('table_reference',time=200,steps=2000000000),E('table_bad',time=60,steps=5000000)])
CHECKS['P25'] = dict(harness='spacegroup.cpp', srcs=XT, bounds='all integer matrices with two free rows (entries -1..1) and the third one of nine (thorough: three free rows); all 64 cubic and hexagonal operations, singly and with identity, inversion and two others; one setting of each of the 32 point groups and five further ones', outside='matrices with larger entries',
    entries=[E('isometry',time=120),E('axes'),E('inverses',steps=5000000),E('lists'),E('links',steps=5000000),E('sorted',steps=5000000),E('folds',time=90,steps=50000000),E('unique_rots'),E('transform',time=90,steps=50000000)])
LQ = 'lattice with integer and quarter basis vectors, '
CHECKS['P26'] = dict(harness='lattice.cpp', srcs=XT, bounds='matrices with three free entries of nine (reals within +-4, volume at least 1/2), row and column form; lengths: all reals in [1/2,9] at six triples of tabulated angles in all units; snapping: 14 space groups, lengths off by up to 0.01 (reals) or angles off by 0.02 degrees', outside='generic angles (libm is not modelled); left-handed matrices for snapping; IEEE rounding',
    entries=[E('matrix_dual'),E('matrix_derived'),E('params',time=120),E('params_conc'),E('bad_params'),E('snap_lengths',time=260,steps=100000000),E('snap_trigonal',steps=20000000),E('snap_cubic',steps=20000000),E('snap_exact',time=120,steps=100000000),E('snap_angles',time=90,steps=100000000),E('sameness'),E('symmetry_kept',time=60,steps=1000000000),E('symbol_refuse',steps=100000000)])
CHECKS['P27'] = dict(harness='lattice.cpp', srcs=XT, bounds='all seven centrings; a lattice with one free entry; vectors: all reals within +-5, integers within +-3', outside='IEEE rounding; integer reciprocal vectors which are not primitive reciprocal lattice points (integer results cannot hold them)',
    entries=[E('prim_tables'),E('prim_lattice',steps=5000000),E('prim_vectors',steps=5000000),E('prim_int',time=90,steps=5000000),E('prim_refuse',steps=5000000)])
CHECKS['P28'] = dict(harness='lattice.cpp', srcs=XT, bounds='one triclinic lattice, direct and reciprocal, one or two (some three) vectors with all real components within +-5', outside='IEEE rounding; other lattices; arrays of more than two dimensions', entries=L('lv_xyz lv_products lv_star lv_arith lv_rows lv_matrix lv_round lv_triple'))
CHECKS['P29'] = dict(harness='lattice.cpp', srcs=XT, bounds='up to 6 atoms; positions: one to two free real coordinates; groups of up to 16 operations', outside='larger groups and bases', entries=L('basis_build basis_equiv basis_ops basis_snap basis_special basis_refuse', steps=5000000))
GT = XT + ['polyhedron_faces', 'approx_config']
CHECKS['P30'] = dict(harness='geometry.cpp', srcs=GT, bounds='six shapes of 4 to 24 corners in orthonormal, direct and reciprocal lattice coordinates; points: all real coordinates within +-3; cutting planes of six directions through and between corners (and, for boxes and prisms, any offset); six relative shifts of two polyhedra; all affine images for the volume; nine rotations',
    outside='planes which miss a corner by less than 1e-3 without going through it (symbolic offset); points within 1e-4 outside of a surface; shapes which are not convex',
    entries=[E('hull',steps=40000000),E('hull_extra',time=90,steps=40000000),E('measures',steps=40000000),E('affine'),E('contain',time=90),E('cut_any',time=90,steps=40000000),E('cut_levels',time=90,steps=40000000),E('cut_points',time=200,steps=40000000),E('intersect',time=200,steps=40000000),E('moves',time=150,steps=40000000),E('combine',steps=40000000),E('equal',steps=40000000),E('box',time=90),E('plane_points')])
BT = GT + ['bz', 'bz_move', 'bz_wedge', 'neighbours']
BS = 'lattices of twenty space groups (all centrings, two to forty-eight operations)'
CHECKS['P33'] = dict(harness='bz.cpp', srcs=BT, bounds='twelve (thorough: '+BS+'); points: every real position on four (two) lines through three zones, and all points of a box around the origin for cubic and orthorhombic lattices', outside='lattices other than those listed; IEEE rounding of the moved point',
    entries=[E('first',time=90,steps=3000000000),E('first_conventional',time=90,steps=3000000000),E('move_line',time=160,steps=3000000000),E('move_conventional',time=90,steps=3000000000),E('move_box',time=200,steps=3000000000),E('move_rows',time=90,steps=3000000000),E('move_primitive',time=90,steps=3000000000),E('move_refuse',steps=3000000000),E('options',time=120,steps=3000000000)])
CHECKS['P34'] = dict(harness='bz.cpp', srcs=BT, bounds=BS+'; 59 (thorough: all 530) tabulated settings with two lattices each, with and without time reversal (thorough: and conventional zones); inner points: all reals; moved points: every real position on two (four) lines', outside='other lattice parameters; IEEE rounding of the moved point; points within 1e-6 of the faces for uniqueness',
    entries=[E('ir_shape',time=120,steps=5000000000),E('ir_line',time=160,steps=5000000000),E('wedge_line',time=120,steps=5000000000),E('settings',time=200,steps=5000000000),E('r32',steps=5000000000)])
GTT = GT + ['tetgen', 'predicates']
CHECKS['P31'] = dict(harness='tri.cpp', srcs=GTT, bounds='seven convex shapes (zone centre inside, outside, on a facet, an edge and a corner); up to four maximum volumes from none to 1/50 of the volume; meshes of up to 3 (thorough 5) layers; nests of up to 3 (4) levels; trellises with and without triangulated inner nodes, orthonormal and triclinic lattice coordinates; points: every point of the shape', outside='other shapes; smaller maximum volumes; volumes larger than wanted by less than a factor of two (the mesh generator treats the maximum as a target)',
    entries=[E('simple',time=90,steps=400000000),E('layer',time=60,steps=400000000),E('lq',time=120,steps=400000000),E('nest',time=60,steps=1000000000),E('trel',time=200,steps=1000000000),E('trel_lattice',time=200,steps=1000000000),E('mesh',time=60,steps=1000000000)])
TS=dict(steps=200000000000)
CHECKS['P32'] = dict(harness='tri.cpp', srcs=GTT, bounds='three to five (thorough: seven) convex shapes, two to three (three to four) maximum volumes; points: every real position on two to four (seven) lines through the shape, inside and (mesh, nest) outside; affine scalar and vector data; symbolic data at the vertices', outside='points within 1e-5 outside of the surface; points off the listed lines (P31 covers all points by cells); weights differ from exact ones by less than 1e-7; nests with several levels for exactness at the vertices (a vertex of one tetrahedron may lie within an edge of its neighbour); points outside of a trellis: only memory safety',
    entries=[E('nest_at',time=280,**TS),E('trel_at',time=280,**TS),E('trel_at_lattice',time=280,**TS),E('mesh_at',time=280,**TS),E('mesh_affine',time=280,**TS),E('mesh_exact',time=280,**TS),E('nest_affine',time=280,**TS),E('nest_exact',time=280,**TS),E('trel_affine',time=280,**TS),E('trel_exact',time=280,**TS),E('trel_affine_lattice',time=280,**TS),E('data_counts',time=90,**TS)])
IT = BT + ['tetgen','predicates']
IS=dict(steps=1000000000)
CHECKS['P40'] = dict(harness='interp.cpp', srcs=IT, bounds='three points, one or two branches, data of six shapes (scalars, vectors, matrices, mixtures), one to three weighted contributions with any weights in [0,1] and all permutations of two branches; all data real or complex; phases: two points of two branches with two complex elements, one complex number free; all shapes of one to six dimensions with extents up to 12 against 48 element counts', outside='IEEE rounding; libm (the phase of a complex number is modelled by its exact cosine and sine); more than two branches',
    entries=[E('mix_real',time=60,**IS),E('mix_complex',time=60,**IS),E('phase',time=160,**IS),E('gauge',time=60,**IS),E('elements',time=120,**IS),E('dual',time=60,**IS)])
CHECKS['P41'] = dict(harness='interp.cpp', srcs=IT, bounds='crystals of six space groups with one to eight atoms (cubic, tetragonal, hexagonal, trigonal, monoclinic; three of them for the rotation of vectors), every point operation; all real or complex data of one or two branches with scalars, vectors and matrices; two (thorough: four) points Q for phases, with 1 and 2 threads', outside='other crystals and points; eigenvectors are compared up to the phase of one lattice vector common to all atoms; IEEE rounding',
    entries=[E('rot_recip',time=90,**IS),E('rot_real',time=90,**IS),E('rot_axial',time=90,**IS),E('rot_complex',time=120,**IS),E('rot_refuse',**IS),E('table',time=90,**IS),E('table_refuse',**IS),E('gamma_vectors',time=120,**IS),E('gamma_tensors',time=120,**IS),E('gamma_angstrom',time=120,**IS),E('gamma_refuse',**IS)])
CHECKS['P42'] = dict(harness='interp.cpp', srcs=IT, bounds='cost matrices of two branches with scalars, vectors and matrices (up to three free components, angle and difference vector costs, weights 2, 1/2, 3, 1/4); sorting of three points with two or three branches and one (thorough: two) free values, three sets of connected points', outside='IEEE rounding; more branches; permutations are only minimal as far as the assignment solver promises (P04)',
    entries=[E('costs',time=120,**IS),E('costs_many',time=60,**IS),E('costs_angle',time=160,**IS),E('costs_complex',time=60,**IS),E('sorting',time=200,**IS)])
CHECKS['P43'] = dict(harness='interpbz.cpp', srcs=IT, bounds='grids in the irreducible zones of four (trellis), three (nest) and two (mesh) lattices (thorough: eight to twelve), every real position of Q on two (four) lines through several zones, data with components along real or reciprocal basis vectors, with and without threads; 24 points of high symmetry in the grids of ten (twenty) lattices; first zones of two (six) lattices', outside='points which are moved to a position within 1e-12 of the surface of the irreducible zone may be refused by nests and meshes, except the listed points of high symmetry (the tolerance of moving exceeds that of finding); IEEE rounding of the moved point; points which are off the listed lines; eigenvectors (see P41)',
    entries=[E('trellis_ir',time=280,**TS),E('nest_ir',time=280,**TS),E('mesh_ir',time=280,**TS),E('trellis_first',time=200,**TS),E('special_points',time=200,**TS)])
CHECKS['P50'] = dict(harness='hdf.cpp', srcs=IT, bounds='arrays of up to 3x3 real or complex elements in five memory layouts; lists and maps of up to 3 entries; up to 3 motions, rotations and atoms; lattices with any one free entry of a matrix or of twenty space groups, their primitive lattices and vectors; permutation tables after up to 2 insertions; interpolation data of five shapes; zones of five (thorough: twenty) lattices, primitive and conventional, with and without irreducible part, and every real point on a line; trellises of three (six) and meshes of two (five) lattices with symbolic data at six points', outside='the HDF5 library (absent here): files are an in-memory tree with the interface of HighFive, so types and layouts on disk are not examined; nests (brille refuses to save them)',
    entries=[E('arrays',**IS),E('arrays_named',**IS),E('lists',**IS),E('motions',**IS),E('points',**IS),E('lattices',time=90,**IS),E('tables',time=60,**IS),E('interpolators',time=60,**IS),E('duals',time=90,**IS),E('zones',time=120,**TS),E('trellises',time=120,**TS),E('meshes',time=90,**TS)])
