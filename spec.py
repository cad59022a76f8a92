"""Every listed property: text for properties.jsonl, harness files, and what its check assumes. gen.py writes
properties.jsonl and MANIFEST.json from this table; check.py reads the harness lists."""
M = 'c++/triqs/mesh/'
COMMON = ('Floating point arithmetic is treated as exact real arithmetic in the proofs (the native runs of the same contracts use doubles and a tolerance). '
          'Memory allocation succeeds. The dependencies nda, itertools, h5, mpi (absent from this sandbox) are replaced by the small header stand-ins in /verif/stubs, whose index arithmetic is verified together with the callers but which stay trusted as descriptions of the dependencies. '
          'clang 18 (-O1 IR), the IR executor in /verif/vx and z3 are trusted.')
PROPS = {}


def P(pid, title, statement, over, quant, why, files, mech, harness, level='proof', note='', trusted=(), assumes=()):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, harness=harness, level=level, note=note, trusted=list(trusted), assumes=list(assumes))


P('P01', 'Operators act on Fock states with the fermionic sign of their factors',
  'A product of creation and annihilation operators acts on a Fock state exactly as the sequential action of its factors from right to left: the result is zero if an orbital to be emptied is empty or one to be filled is filled, else the single Fock state with those bits changed and the sign given by the number of occupied orbitals each factor passes. This holds for every number of orbitals up to 64 and every order of the factors in the operator.',
  ['inputs', 'configurations'], 'all Fock states of up to 64 orbitals, all masks, all one- and two-factor operators and a family of four-factor operators',
  'tests use a handful of orbitals; the parity of high bits, repeated orbitals and the order of factors are not reached',
  ['c++/triqs/hilbert_space/imperative_operator.hpp', 'c++/triqs/hilbert_space/hilbert_space.hpp'],
  [('parity_number_of_bits, masks and sign', 'c++/triqs/hilbert_space/imperative_operator.hpp')],
  ['fock'], assumes=['The Hilbert space in the contract is a stand-in that records one initial and one final Fock state (imperative_operator is a template of the space).'])

P('P02', 'Many-body operators obey the algebra of fermionic operators',
  'Many-body operators with real, complex or mixed coefficients form an associative algebra with the canonical anticommutation relations for all orbital indices, products are kept normal ordered, sums and multiples are linear, hermitian conjugation is an antilinear involution that reverses products, equality and zero tests look at all terms, conversions between coefficient types keep the operator, and an operator written to a file is read back equal. Compound assignments also hold when the operand is the operator itself.',
  ['inputs', 'histories'], 'all indices and coefficients of operators with a few terms, all three coefficient types',
  'tests check a few commutators on fixed indices; aliasing, coefficient types and normal ordering for other index orders are not covered',
  ['c++/triqs/operators/many_body_operator.hpp', 'c++/triqs/operators/many_body_operator.cpp', 'c++/triqs/hilbert_space/fundamental_operator_set.hpp'],
  [('normal ordering (normalize_and_insert)', 'c++/triqs/operators/many_body_operator.hpp'), ('h5 storage', 'c++/triqs/operators/many_body_operator.cpp')],
  ['operators'], trusted=['the h5 stand-in stores datasets and attributes in memory'])

P('P03', 'Hilbert spaces index Fock states bijectively and states act as vectors on them',
  'The full space of n orbitals numbers exactly the 2^n Fock states of these orbitals, a subspace numbers the states added to it in order, and lookups of states and indices are inverse to each other and refuse what is outside. A state holds one amplitude per basis state and sums, multiples, scalar products and projections between spaces act amplitude by amplitude. Operators act linearly on states and map each subspace into the subspace they are told. Spaces written to a file are read back equal.',
  ['inputs', 'histories'], 'all Fock states, indices and amplitudes; full spaces up to 30 orbitals; states of spaces with 2 orbitals',
  'tests sample a few states; sparse storage, complex amplitudes and out-of-range lookups are not covered',
  ['c++/triqs/hilbert_space/hilbert_space.hpp', 'c++/triqs/hilbert_space/state.hpp', 'c++/triqs/hilbert_space/imperative_operator.hpp'],
  [('get_state_index / get_fock_state / has_state', 'c++/triqs/hilbert_space/hilbert_space.hpp'), ('vector arithmetic, project, dot_product', 'c++/triqs/hilbert_space/state.hpp')],
  ['hilbert', 'state'], trusted=['the h5 stand-in stores datasets and attributes in memory'])

P('P04', 'Orbital sets give every index sequence one stable position',
  'Each distinct index sequence inserted in a set of orbitals gets one position; positions are 0..size-1 in the order of insertion (or of the block structure the set is built from), inserting again changes nothing, lookups find exactly what was inserted, iteration visits every orbital once, equality compares the sequences, and a set stored in a file attribute is read back equal.',
  ['inputs', 'histories'], 'all integer indices in sequences of up to five insertions; block structures with up to 3 orbitals per block; random mixed sequences',
  'tests insert a few small integers; large or negative indices and repeated insertions are not covered',
  ['c++/triqs/hilbert_space/fundamental_operator_set.hpp', 'c++/triqs/hilbert_space/fundamental_operator_set.cpp'],
  [('insert_from_indices_t, operator[]', 'c++/triqs/hilbert_space/fundamental_operator_set.hpp'), ('h5 attributes', 'c++/triqs/hilbert_space/fundamental_operator_set.cpp')],
  ['orbitals'], level='other')

P('P05', 'Hilbert space partitions are the finest ones compatible with the operators',
  'The automatic partition puts two basis states in the same subspace exactly when a chain of non-zero matrix elements of the Hamiltonian (and of the optional hybridization) connects them. After merging subspaces for operators and their conjugates, each of these operators and conjugates connects the subspaces one to one, and the partition is the finest with that property. Subspaces are numbered from 0 in the order of their first state; the stored matrix elements are the non-zero ones of the operators asked for, and the reported connections between subspaces are those of the operator.',
  ['inputs', 'histories'], 'all patterns of matrix elements on 3 (merging) or 4 states; random patterns on up to 8 states',
  'tests use one or two standard Hamiltonians whose subspaces never overlap; several rounds of merging are not reached',
  ['c++/triqs/hilbert_space/space_partition.hpp'],
  [('phase I and II of the partition', 'c++/triqs/hilbert_space/space_partition.hpp')],
  ['space_partition'], level='other', assumes=['The states and operators in the contracts are small dense stand-ins (space_partition is a template of both).'])

P('P06', 'Mesh indices, data indices and mesh points are in bijection',
  'On every mesh (Matsubara frequency, imaginary time, real time/frequency, Legendre, discrete, cyclic lattice, Brillouin zone and their products) the data indices are exactly 0..size-1 and converting index to data index and back is the identity, index validity is membership in the documented range, and periodic folding moves an index by whole periods into that range. A mesh point obtained from an index, from a data index or by iteration carries that index, that data index, the value of the mesh there and the hash of its mesh. Iterating a mesh visits every point exactly once in data-index order.',
  ['inputs', 'configurations'], 'all mesh parameters (extents up to 2^20 per lattice direction, 2^40 points otherwise), both statistics, all indices',
  'unit tests build a few small meshes; an off-by-one for one statistics, one option or one extent ratio survives them',
  [M + x for x in ('imfreq.hpp', 'bases/linear.hpp', 'discrete.hpp', 'legendre.hpp', 'cyclat.hpp', 'brzone.hpp', 'prod.hpp')],
  [('to_index / to_data_index / is_index_valid', 'c++/triqs/mesh/imfreq.hpp'), ('strides and positive_modulo', 'c++/triqs/mesh/cyclat.hpp, brzone.hpp, utils.hpp'), ('prod mesh tuple iteration', 'c++/triqs/mesh/prod.hpp')],
  ['mesh_index', 'mesh_lattice'])

P('P07', 'Meshes compare equal exactly when their defining parameters agree',
  'Two meshes of the same kind are equal if and only if the parameters that define their points (extents, interval ends, inverse temperature, statistics, frequency option, lattice vectors) are equal; equality is symmetric and inequality is its negation. Equal meshes have equal hashes. A copied or assigned mesh equals its source, and a mesh read from a file equals the one written. The adjoint mesh of a mesh has the parameters of its Fourier partner, and a Matsubara, cyclic-lattice or Brillouin-zone mesh is the adjoint of its adjoint.',
  ['inputs', 'configurations'], 'all pairs of parameter sets of each mesh kind',
  'tests compare a mesh with itself or with one different mesh; an ignored parameter is only seen by a pair differing in it alone',
  [M + x for x in ('imfreq.hpp', 'imtime.hpp', 'refreq.hpp', 'retime.hpp', 'bases/linear.hpp', 'discrete.hpp', 'legendre.hpp', 'cyclat.hpp', 'brzone.hpp', 'prod.hpp', 'adjoint.hpp')],
  [('operator== of each mesh', 'c++/triqs/mesh/*.hpp'), ('mesh_hash', 'c++/triqs/mesh/utils.hpp')],
  ['mesh_equal'])

P('P08', 'Mesh evaluation interpolates linearly and closest points are nearest',
  'On equally spaced time and frequency meshes, points are equally spaced between the interval ends, and evaluating at a coordinate inside the interval gives the linear interpolation of the two values around it, hence the stored value on mesh points; on the Brillouin zone it is the multilinear interpolation of the eight corners of the surrounding cell with periodic folding. Only values on the mesh are ever used. The closest mesh point of a coordinate is at minimal distance (on the Brillouin zone: among the corners of the surrounding cell).',
  ['inputs', 'configurations'], 'all intervals, numbers of points and coordinates in the interval; all reciprocal-space coordinates on lattices given in the contracts',
  'tests evaluate at a few interior coordinates; edges, last cells, flat directions and single-point meshes are not reached',
  [M + 'bases/linear.hpp', M + 'brzone.hpp', M + 'evaluate.hpp'],
  [('evaluate / to_value / to_index(closest)', 'c++/triqs/mesh/bases/linear.hpp'), ('evaluate, closest_index', 'c++/triqs/mesh/brzone.hpp'), ('curried evaluation on tuples of meshes', 'c++/triqs/mesh/evaluate.hpp')],
  ['interp', 'interp_bz'])

P('P09', 'Imaginary-time points form an exact cyclic group ordered like real numbers',
  'Sums, differences and opposites of imaginary-time points are exact modulo the inverse temperature (associative, commutative, invertible), comparisons are a total order that the conversion to a floating point number preserves, and division by an integer or by another point is the exact floor quotient. Points made from a number in the segment stay in the segment and map its two ends to the two ends. Random points drawn between two points lie in that half-open interval. The value of a result is that of the operation on the values up to whole periods, arithmetic with floating point numbers is that of the value, and a point read from a file is the one written.',
  ['inputs'], 'all pairs and triples of 64-bit grid positions, all inverse temperatures, all numbers in the segment',
  'sampled positions almost never wrap around or hit 0 or beta exactly',
  ['c++/triqs/utility/time_pt.hpp'],
  [('operator+,-, unary -, comparison', 'c++/triqs/utility/time_pt.hpp'), ('time_segment', 'c++/triqs/utility/time_pt.hpp')],
  ['time_pt'])

P('P10', 'Matsubara frequency arithmetic agrees with complex arithmetic',
  'A Matsubara frequency of index n is i*pi*(2n+1)/beta for fermions and i*pi*2n/beta for bosons. Sums, differences and opposites of frequencies are frequencies with the same inverse temperature, the statistics given by the parity, and exactly the value of the same complex operation; products, quotients and operations mixing a frequency with a real or complex number give the complex result.',
  ['inputs'], 'all indices, inverse temperatures and pairs of statistics',
  'tests check a couple of sums; statistics combinations and quotients are not covered',
  [M + 'domains/matsubara.hpp', M + 'imfreq.hpp'],
  [('operators on matsubara_freq', 'c++/triqs/mesh/domains/matsubara.hpp')],
  ['matsubara'])

P('P14', 'Numbers that are real or complex follow complex arithmetic',
  'Arithmetic on numbers that are either real or complex agrees with complex arithmetic; the result is real when both operands are real; conversion to a real number is refused when the number is complex; equality, zero tests, conjugation, real and imaginary parts agree between real, complex and mixed numbers.',
  ['inputs'], 'all values of both operands and both kinds',
  'tests check a few values; the kind of the result and mixed operands are not covered',
  ['c++/triqs/utility/real_or_complex.hpp', 'c++/triqs/utility/numeric_ops.hpp'],
  [('real_or_complex', 'c++/triqs/utility/real_or_complex.hpp'), ('is_zero, conj', 'c++/triqs/utility/numeric_ops.hpp')],
  ['real_or_complex'])

P('P16', 'Coefficients extracted from an operator rebuild the operator',
  'The coefficients of quadratic, density-density and two-particle terms extracted from a many-body operator give back the operator when inserted in the defining sums, with the symmetries of the coefficients; converted to an array they sit at the positions of their orbitals and the array is complex when a coefficient is; block matrices and operators convert into each other and back; filtering by length splits an operator into parts that add up to it. Terms of another form are refused, or left out when asked.',
  ['inputs', 'configurations'], 'all indices and coefficients of operators with up to four terms',
  'tests extract from a few operators; terms with shared orbitals, unknown blocks and complex coefficients in the middle are not covered',
  ['c++/triqs/operators/util/extractors.hpp'],
  [('extract_h_dict, extract_U_dict2, extract_U_dict4, dict_to_matrix', 'c++/triqs/operators/util/extractors.hpp'), ('block_matrix_from_op / op_from_block_matrix', 'c++/triqs/operators/util/extractors.hpp')],
  ['extractors'], level='other')

P('P15', 'A determinant manipulator always represents the matrix of its rows and columns',
  'Whatever the sequence of insertions, removals, row and column changes, refills, swaps and rolls, a det_manip represents the matrix f(x_i,y_j) of its current rows and columns in their order: its size, its arguments, its elements, its determinant and its inverse matrix are those of that matrix. Every try_* returns the ratio of the new determinant to the old one and changes nothing by itself; complete_operation makes exactly the announced change, reject_last_try none. Positions may be given in any order. Regeneration changes nothing, and copies, moved and swapped manipulators and files represent the same matrix and go on working independently. Positions outside of the matrix are refused with an exception.',
  ['inputs', 'histories'], 'all matrices (all values of f) of up to three rows before and four after an operation; all positions and orders of rows and columns; histories of two operations from there',
  'tests run random sequences of one function and compare up to a precision; signs of unusual orders of rows, positions given out of order, capacity limits and operations after a copy or a rejected try are sampled rarely',
  ['c++/triqs/det_manip/det_manip.hpp'],
  [('try_insert / try_remove / try_insert_k / try_remove_k / try_change_* / try_refill, complete_operation', 'c++/triqs/det_manip/det_manip.hpp'), ('regenerate, swap_*, roll_matrix, determinant, inverse_matrix', 'c++/triqs/det_manip/det_manip.hpp')],
  ['det'], level='other', trusted=['nda matrices and their determinant and inverse (stub, exact)', 'h5 files (stub)'],
  assumes=['floating point treated as exact real arithmetic in proof mode, intermediate determinants that the code divides by are not zero'])

P('P11', 'Random numbers follow their documented sequence, range and seed',
  'The Mersenne twister RandMT advances every state by the MT19937 recurrence and returns the tempered states in order, batch after batch, is seeded by the generator 69069 from the seed made odd, and copies and assigned generators are independent generators with the seed of the original; its doubles lie strictly between 0 and 1. A random_generator without a name is this RandMT; each listed name is accepted, any other is refused, and the seed fixes the sequence. Integers of a random_generator lie in [0,n) with equal shares of the unit interval, doubles in [0,x) and [a,b). A buffered function delivers the numbers of its source once each and in order whatever the mixture of draws, previews, copies and moves; an empty one throws.',
  ['inputs', 'configurations', 'histories'], 'all states and seeds of RandMT, all random numbers and interval ends; buffers of up to three numbers; named boost generators are only run',
  'tests compare averages of fixed seeds; one wrong word of the state, a batch boundary or a lost number does not show',
  ['c++/triqs/mc_tools/MersenneRNG.hpp', 'c++/triqs/mc_tools/MersenneRNG.cpp', 'c++/triqs/mc_tools/random_generator.hpp', 'c++/triqs/mc_tools/random_generator.cpp', 'c++/triqs/utility/buffered_function.hpp'],
  [('RandMT::reloadMT / seedMT / randomMT', 'c++/triqs/mc_tools/MersenneRNG.hpp'), ('random_generator::operator()', 'c++/triqs/mc_tools/random_generator.hpp'), ('buffered_function', 'c++/triqs/utility/buffered_function.hpp')],
  ['rng'], trusted=['the boost generators (only run natively)'])

P('P12', 'The Monte Carlo loop follows the Metropolis rule and keeps exact books',
  'Whatever the moves, the measures, the random numbers, the number of cycles and their length (also a negative number: run until told to stop): every cycle makes exactly length_cycle attempts; each attempted move is drawn with its proposition probability and gets exactly one verdict, accepted with probability min(1,|ratio|) or else rejected, before the next attempt; the stored sign is the initial sign times the product of the signs of the accepted moves; measures run once per cycle after the auxiliary measures, with the sign of the current configuration, and never in a warmup; the numbers of configurations, measures, cycles, proposals and acceptances are exact, so acceptance rates are accepted over proposed; the status tells whether all cycles were done, the callback stopped the run, or a signal did; a cycle cut short by a signal or an exception is not measured. Moves, measures and sets of moves can be nested, removed, moved and stored without losing this.',
  ['inputs', 'histories', 'schedules'], 'all runs (no bound on cycles, length and histories for the main loop), all ratios, random numbers and verdicts; signals, exceptions, nesting and moved objects within at most two cycles of two attempts',
  'tests run fixed seeds and compare averages; overflow of counters, the last cycle, empty runs, signals and exceptions at a given attempt are not sampled',
  ['c++/triqs/mc_tools/mc_generic.hpp', 'c++/triqs/mc_tools/mc_move_set.hpp', 'c++/triqs/mc_tools/mc_measure_set.hpp', 'c++/triqs/mc_tools/mc_measure_aux_set.hpp', 'c++/triqs/utility/signal_handler.cpp'],
  [('mc_generic::run, warmup, accumulate, warmup_and_accumulate', 'c++/triqs/mc_tools/mc_generic.hpp'), ('move_set::attempt / accept / reject / collect_statistics', 'c++/triqs/mc_tools/mc_move_set.hpp'), ('measure_set', 'c++/triqs/mc_tools/mc_measure_set.hpp')],
  ['mc'], trusted=['the random generator is any source of numbers in [0,1)', 'mpi: one process, and two simulated processes for the statistics of the moves (stub)', 'sigaction is a stand-in that records the handler'])

P('P13', 'Histograms, bins, averages and errors are those of the data',
  'A histogram counts every sample exactly once, in the bin around it or as lost (also nan and infinities), for any number of bins and history; sums, densities and cumulative distributions add up. Linear bins hold the means of consecutive data, all of the same capacity but the last, for any number of data and any compression; logarithmic bins hold, at every level, the mean and the squared deviations of exactly the full bins of 2^n data; the errors derived from them, mean, standard error and jackknife estimates are those of their defining formulas. Split over several MPI processes, in parts of any sizes, all of these give the results of the joined data on all processes that should get them; accumulators and histograms read from a file go on as if they had never been stored.',
  ['inputs', 'histories'], 'one step from every state of bins (counts up to 2^40, all data), any number of histogram bins; series of up to nine data and up to three processes for the derived estimates',
  'tests use a few short series; the compression and level logic depends on the number of data so far (also beyond 2^31), and MPI tests on the number of processes',
  ['c++/triqs/stat/histograms.hpp', 'c++/triqs/stat/histograms.cpp', 'c++/triqs/stat/accumulator.hpp', 'c++/triqs/stat/mean_error.hpp', 'c++/triqs/stat/jackknife.hpp'],
  [('histogram', 'c++/triqs/stat/histograms.cpp'), ('lin_binning, log_binning, accumulator', 'c++/triqs/stat/accumulator.hpp'), ('mean, mean_and_err, *_mpi', 'c++/triqs/stat/mean_error.hpp'), ('jackknife, jackknife_mpi', 'c++/triqs/stat/jackknife.hpp')],
  ['stat'], trusted=['collectives of the MPI library (stub: deterministic replay of all processes)', 'h5 files (stub)', 'nda containers (stub)'],
  assumes=['floating point treated as exact real arithmetic in proof mode'])

G = 'c++/triqs/gfs/'
P('P17', 'A Green function is one value of its target per point of its mesh',
  'A Green function stores one value of its target per mesh point: g[p] for a mesh point or index of any mesh, also products of meshes, is the element of data() at the position of the point (and its further indices), readable and writable, and distinct points have distinct elements. Copies are independent, views refer to the same data, slices of the target or of one mesh of a product are exactly the elements with those indices, and writing through any of them changes nothing else. Assignments and arithmetic act point by point with the rules of the target (matrices are multiplied as matrices, scalars act on the diagonal), and give functions on the same mesh; operands on different meshes or of different shapes are refused. A file gives back the same function.',
  ['inputs', 'configurations'], 'all mesh sizes and points of one-dimensional meshes and products for element access; all values on meshes of up to four points and 2 x 2 targets for arithmetic, views, copies and files',
  'tests fill a few functions and compare; strides of slices, aliasing of views, products of meshes with different statistics and refused operands are hardly covered',
  [G + 'gf/gf.hpp', G + 'gf/gf_view.hpp', G + 'gf/gf_const_view.hpp', G + 'gf/gf_expr.hpp', G + 'gf/_gf_view_common.hpp', G + 'gf/auto_assign.hpp', G + 'h5.hpp'],
  [('gf, gf_view, gf_const_view', G + 'gf/gf.hpp'), ('operator[], operator(), slice_target', G + 'gf/_gf_view_common.hpp'), ('operators', G + 'gf/gf_expr.hpp')],
  ['gf'], level='other', trusted=['nda containers (stub)', 'h5 files (stub)'], assumes=['floating point treated as exact real arithmetic in proof mode'])

P('P18', 'Transformations of Green functions keep their defining relations',
  'A function unfolded from positive frequencies equals it there and its conjugate at the opposite frequencies; the views of the positive or of the low frequencies hold the values of those frequencies with the statistics of the function. The tests for hermitian functions and functions real in time decide G(iw) = G(-iw)^dagger, respectively the conjugate, within the tolerance at every frequency and element, and the symmetrised functions are the means of both sides. Real and imaginary parts, conjugates and inverses act at every point; L G R multiplies every point from both sides. A tail replaces exactly the frequencies from n_min on. Flattening keeps every element and unflattening inverts it; rebinning averages the points of each bin. Densities of functions given by poles, by Legendre coefficients or by linear interpolation in frequency are exact; the Legendre transforms are the polynomial series and the trapezoidal integrals with the polynomials, and moments and discontinuities follow from the coefficients.',
  ['inputs', 'configurations'], 'all values of functions on meshes of up to seven points with targets of up to 2 x 3, both statistics, all tolerances, positions and inverse temperatures',
  'tests apply the transformations to a few smooth fermionic functions; bosonic functions, single elements that break a symmetry, partial intervals and high moments are not covered',
  [G + 'functions/imfreq.hpp', G + 'gf/flatten.hpp', G + 'functions/functions2.hpp', G + 'functions/density.cpp', G + 'functions/imtime.cpp', G + 'functions/legendre.cpp', G + 'transform/legendre_matsubara.hpp', 'c++/triqs/utility/legendre.hpp', 'c++/triqs/utility/legendre.cpp'],
  [('make_gf_from_real_gf, is_gf_hermitian, make_hermitian, restricted_view, replace_by_tail', G + 'functions/imfreq.hpp'), ('flatten_gf_2d', G + 'gf/flatten.hpp'), ('inverse, set_from_L_G_R', G + 'functions/functions2.hpp'), ('density', G + 'functions/density.cpp'), ('get_tail, enforce_discontinuity', G + 'functions/legendre.cpp'), ('legendre_generator, legendre_t', 'c++/triqs/utility/legendre.cpp')],
  ['gf_functions'], level='other', trusted=['nda containers and small inverses (stub)', 'exp and sqrt are functions with exp > 0 and sqrt(x)^2 = x'], assumes=['floating point treated as exact real arithmetic in proof mode'])

P('P19', 'Block Green functions are named lists of Green functions',
  'A block Green function is a list (or a table) of Green functions with one name per block (or per row and column), in order: however it is made, its size, names, block sizes, element access and iteration are those of the list, and lists that do not fit the names are refused. Copies are independent, views refer to the same blocks; assigning a view writes all of its data and refuses another number of blocks, assigning a function takes over blocks and names. Arithmetic, real and imaginary parts, symmetry tests and projections and mapped functions act block by block and keep names and order; operands with different numbers of blocks are refused. A file gives back the same blocks under the same names.',
  ['inputs', 'configurations'], 'all values of up to three (or two by three) blocks on meshes of two points',
  'tests use two equal blocks; blocks of different sizes, tables that are not square, operands of different sizes and assignment of views are not covered',
  [G + 'block/block_gf.hpp', G + 'block/block_gf_view.hpp', G + 'block/_block_gf_view_common.hpp', G + 'block/expr.hpp', G + 'block/factories.hpp', G + 'block/map.hpp', G + 'functions/functions2.hpp', G + 'functions/imfreq.hpp'],
  [('block_gf, block_gf_view', G + 'block/block_gf.hpp'), ('accessors, iterators, h5', G + 'block/_block_gf_view_common.hpp'), ('bgf_expr', G + 'block/expr.hpp'), ('make_block_gf*', G + 'block/factories.hpp'), ('map_block_gf', G + 'block/map.hpp')],
  ['block'], level='other', trusted=['nda containers (stub)', 'h5 files (stub)'], assumes=['floating point treated as exact real arithmetic in proof mode', 'the joined names of the blocks of a table are distinct (files)'])

L = 'c++/triqs/lattice/'
P('P20', 'Lattices, Brillouin zones and tight-binding Hamiltonians follow their formulas',
  'A Bravais lattice has the given units, completed in one and two dimensions by orthogonal vectors of length one, and the given orbitals; other dimensions and linearly dependent vectors are refused. Lattice coordinates become the sum of the units times the coordinates and back; points are added, subtracted and negated by their indices. The reciprocal vectors of a Brillouin zone times the units are 2 pi or 0. Lattices and zones are equal when units, dimension and number of orbitals agree. A tight-binding Hamiltonian keeps its displacements and hoppings in order and refuses those that do not fit the lattice or have no hermitian conjugate at the opposite displacement. Its Fourier transform at a momentum, a list of momenta, a path or the points of a mesh is the sum of exp(2 pi i k R) t(R), a hermitian matrix, and the dispersion its eigenvalues; grids visit the middle of each cell once; the density of states of one band counts every energy of the grid in its bin and sums up to one state. Files give back lattices, zones and Hamiltonians.',
  ['inputs', 'configurations'], 'all units, coordinates and momenta; Hamiltonians with all displacements and values of a hopping, its conjugate and an energy, up to two orbitals, in one to three dimensions, meshes of up to nine points',
  'tests use a cubic lattice with equal real hoppings, where transposed matrices, signs of phases, missing conjugates and the completion of the basis make no difference',
  [L + 'bravais_lattice.hpp', L + 'bravais_lattice.cpp', L + 'brillouin_zone.hpp', L + 'brillouin_zone.cpp', L + 'tight_binding.hpp', L + 'tight_binding.cpp', L + 'grid_generator.hpp'],
  [('bravais_lattice', L + 'bravais_lattice.cpp'), ('brillouin_zone', L + 'brillouin_zone.cpp'), ('tight_binding::fourier, dispersion', L + 'tight_binding.hpp'), ('tight_binding, dos, paths and grids', L + 'tight_binding.cpp'), ('grid_generator', L + 'grid_generator.hpp')],
  ['lattice'], level='other', trusted=['nda containers, inverses and eigenvalues of matrices with up to three rows (stub)', 'h5 files (stub)', 'exp(i x) = cos x + i sin x with functions cos and sin, even and odd, of which only cos^2 + sin^2 = 1 is known'],
  assumes=['floating point treated as exact real arithmetic in proof mode', 'a Hamiltonian has at least one hopping and a band at least two energies'])

# property, reason
A_, F_ = 'c++/triqs/atom_diag/', 'c++/triqs/gfs/transform/'
NOT_APPLICABLE = [
  dict(id='P90', title='Exact diagonalisation solves the Hamiltonian it was given',
       statement='The eigenvalues and eigenstates of an atomic problem, taken over all invariant subspaces, are exactly those of its Hamiltonian on the whole Fock space. The density matrix, averages and Green functions computed from them are those of their defining traces.',
       over=['inputs'], quant='all Hamiltonians, with and without conserved quantities', why='tests diagonalise a few small Hamiltonians and compare with stored files',
       files=[A_ + 'atom_diag.hpp', A_ + 'impl/atom_diag.cpp', A_ + 'impl/worker.cpp', A_ + 'impl/functions.cpp', A_ + 'impl/gf.cpp'], mech=[('autopartition and diagonalisation block by block', A_ + 'impl/worker.cpp')],
       reason='The result is defined through LAPACK eigenvectors of matrices of any size, whose contract (an orthonormal basis that diagonalises the matrix) makes every obligation nonlinear in irrational unknowns: the solvers decide it for two by two matrices at most. The partition into subspaces, the operators and the Fock states it is built from are decided by P01, P03 and P05.'),
  dict(id='P91', title='Fourier transforms invert each other and agree with their defining sums',
       statement='The transform of a Green function in imaginary time or real time to frequencies agrees with the defining integral up to the discretisation, using the known moments of the tail. The inverse transform gives the function back, and the transform over a lattice is the exact discrete sum over its points.',
       over=['inputs', 'configurations'], quant='all Green functions, mesh sizes, moments and target shapes', why='tests transform a few functions and compare within a tolerance',
       files=[F_ + x for x in ('fourier.hpp', 'fourier_common.cpp', 'fourier_matsubara.cpp', 'fourier_real.cpp', 'fourier_lattice.cpp')], mech=[('subtraction of the tail and call of FFTW', F_ + 'fourier_matsubara.cpp')],
       reason='The deciding arithmetic is in FFTW, an external library whose plans take raw pointers and opaque state; what remains is correct up to a discretisation error, for which there is no exact postcondition, and the bound on that error is a statement of numerical analysis outside the theories of the solvers.'),
  dict(id='P92', title='Discrete Lehmann representations reproduce the functions they represent',
       statement='A Green function converted to discrete Lehmann coefficients and evaluated at any imaginary time or Matsubara frequency agrees with the function within the requested accuracy. Conversions between the representations invert each other.',
       over=['inputs'], quant='all functions with spectral weight below the cut-off, all accuracies', why='tests use one or two functions and parameters',
       files=[M + x for x in ('dlr.hpp', 'dlr_imtime.hpp', 'dlr_imfreq.hpp')] + ['c++/triqs/gfs/functions/dlr.hpp'], mech=[('calls of cppdlr', 'c++/triqs/gfs/functions/dlr.hpp')],
       reason='Points, coefficients and kernels come from the external library cppdlr, and the accuracy claim is about the numerical rank of a matrix of exponentials: no contract in the theories of the solvers states it.'),
  dict(id='P93', title='Tail fits recover the moments within their reported error',
       statement='Fitting the high-frequency tail of a Green function with a given order and window returns the least-squares moments and an error that bounds the residual. Known moments are left as given.',
       over=['inputs'], quant='all functions, orders, windows and known moments', why='tests fit one function per mesh',
       files=[M + 'tail_fitter.hpp', 'c++/triqs/gfs/functions/imfreq.hpp'], mech=[('tail_fitter::fit', M + 'tail_fitter.hpp')],
       reason='The fit is a singular value decomposition of a matrix with hundreds of rows (external LAPACK) with a choice of order by floating point rank; exact real arithmetic, in which the contracts are proved, does not describe that choice.'),
  dict(id='P94', title='Python objects behave as the C++ objects they wrap',
       statement='Converting an object to Python and back gives an equal object. Operations on Green functions, operators and meshes in Python return what the C++ operations return.',
       over=['inputs', 'programs'], quant='all wrapped types and operations', why='tests convert a few objects',
       files=['c++/triqs/cpp2py_converters.hpp', 'python/triqs/gf/gf.py'], mech=[('converters', 'c++/triqs/cpp2py_converters/gf.hpp')],
       reason='The code runs in the Python interpreter through its C interface and generated wrappers; there is no deductive verifier for that mixture here, and the installed Python tools search for counterexamples rather than prove.'),
]
