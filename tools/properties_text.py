P('P01', 'Binary-to-text codecs and fingerprints are faithful',
  '''Every byte sequence encoded as hexadecimal, base 64 or base 32768 decodes to
  itself, the encoded text and its length are those that the format prescribes,
  and decoding arbitrary text never accesses memory outside of the buffers.
  Fingerprints only depend on the bytes fingerprinted.''',
  'inputs', 'all byte sequences, of all lengths and alignments; all texts given '
  'to the decoder; in-place uses of the buffers',
  '''The tests encode a handful of fixed strings; the interesting cases are the
  lengths modulo 15 bits or 3 bytes, the aliasing of buffers and the texts that
  are not valid encodings.''',
  'base/encoder.hpp base/hexadecimal_body.hpp base/base64_body.hpp '
  'base/base32768_body.hpp base/fingerprint2011.hpp base/array_body.hpp',
  [('HexadecimalEncoder', 'base/hexadecimal_body.hpp'),
   ('Base64Encoder', 'base/base64_body.hpp'),
   ('Base32768Encoder: padding and repertoires', 'base/base32768_body.hpp')],
  'property-based testing: round trips and independent encoders as oracles, '
  'under the address sanitizer',
  'Generated payloads of up to 3000 bytes; differential against encoders '
  'written from the format definitions.')

P('P02', 'Serialized data streamed through threads and compressors arrive intact',
  '''Whatever the sizes of the chunks and queues, the compressor and the pace of
  the producer and of the consumer, the bytes of a message which is pulled out of
  a serializer, or pushed into a deserializer, are exactly those of the message,
  in order and with a proper end of stream.  Lossless compression of arrays of
  numbers gives back the same numbers, and lossy compression respects its
  tolerance.''',
  'inputs schedules histories', 'all messages, chunkings, buffer and queue '
  'sizes, compressors, and interleavings of the producer, the consumer and the '
  'callbacks',
  '''The tests stream three fixed messages with one chunk size; the boundaries of
  chunks and the interleavings of the threads are not sampled.''',
  'base/pull_serializer_body.hpp base/push_deserializer_body.hpp '
  'base/push_pull_callback_body.hpp base/zfp_compressor.cpp '
  'base/array_body.hpp base/serialization.hpp base/sink_source_body.hpp',
  [('PullSerializer: queue and free list of chunks',
    'base/pull_serializer_body.hpp'),
   ('PushDeserializer: queue and completion callbacks',
    'base/push_deserializer_body.hpp'),
   ('PushPullCallback', 'base/push_pull_callback_body.hpp'),
   ('ZfpCompressor', 'base/zfp_compressor_body.hpp')],
  'stateful property-based testing with random chunkings and schedules, round '
  'trip and model (string and position) as oracles',
  'Messages up to about 100 kB; the schedules are those that random pauses '
  'reach on 8 cores.')

P('P03', 'Threads, pools and bundles run each task exactly once and never hang',
  '''Each task given to a bundle, a thread pool, a graveyard or a recurring thread
  is run exactly once (or not at all if it is refused or stopped, as documented),
  waiting for them ends as soon as, and not before, the tasks are finished or the
  deadline has passed, and the errors are reported.  Destroying or stopping them
  leaves no thread running, in any state that they may be in.''',
  'schedules histories', 'all histories of operations on these objects and all '
  'interleavings of the tasks and of their clients',
  '''The tests run a few fixed scenarios; a lost wakeup or a double execution
  needs a particular interleaving or history.''',
  'base/bundle.cpp base/thread_pool_body.hpp base/graveyard_body.hpp '
  'base/recurring_thread_body.hpp base/stoppable_thread_body.hpp',
  [('Bundle: count of active workers, deadline', 'base/bundle.cpp'),
   ('ThreadPool: queue and idle count', 'base/thread_pool_body.hpp'),
   ('RecurringThread: input and output slots',
    'base/recurring_thread_body.hpp'),
   ('Graveyard', 'base/graveyard_body.hpp'),
   ('stop tokens of MakeStoppableThread', 'base/stoppable_thread_body.hpp')],
  'stateful (model-based) property-based testing of generated histories and '
  'schedules',
  'Histories of up to 30 operations on up to 8 threads; schedules reached by '
  'random delays.')

P('P04', 'The utility data structures behave like their mathematical models',
  '''Disjoint sets, allocators, movable functions, arrays and bounded arrays,
  ranges, tuple iteration, flags, status chains, bit manipulation, Euclidean
  remainders, line input and checked pointers give the results of their models
  for every sequence of operations.  None of them leaks, double-frees or accesses
  memory out of bounds.''',
  'inputs histories', 'all sequences of operations and all operands of these '
  'types',
  '''The tests use one or two small examples of each; boundaries (empty,
  negative, equal prefixes, lines as long as the buffer) are absent.''',
  'base/disjoint_sets_body.hpp base/get_line_body.hpp '
  'base/malloc_allocator.hpp base/for_all_of_body.hpp '
  'base/function_body.hpp base/bits.hpp base/mod.hpp base/array_body.hpp '
  'base/not_null_body.hpp base/flags.cpp base/cpuid.cpp base/ranges.hpp '
  'base/constant_function.hpp base/monostable_body.hpp '
  'base/mappable.hpp',
  [('union by rank and path compression', 'base/disjoint_sets_body.hpp'),
   ('GetLine: buffer growth', 'base/get_line_body.hpp'),
   ('not_null conversions', 'base/not_null_body.hpp'),
   ('CPUID feature bits', 'base/cpuid.cpp')],
  'stateful (model-based) property-based testing, under the address sanitizer',
  'Histories of up to 120 operations against naive models.')

P('P05', 'Floating-point building blocks are exact where they claim to be',
  '''Next and previous numbers, binary logarithms and scaling, distances in units
  of the last place, factorials and binomials, and error-free sums, differences
  and products give the mathematically exact result for all finite operands that
  do not overflow or underflow.  Arithmetic with twice the precision and
  compensated evaluations respect their error bounds.''',
  'inputs', 'all finite numbers, subnormal and extreme ones included, and all '
  'combinations of signs and magnitudes',
  '''The tests sample a few values; the failures are at powers of two, at the
  ends of the range, for particular signs or cancellations.''',
  'numerics/next_body.hpp numerics/log_b_body.hpp numerics/scale_b_body.hpp '
  'numerics/ulp_distance_body.hpp numerics/combinatorics_body.hpp '
  'numerics/double_precision_body.hpp numerics/fma_body.hpp '
  'numerics/elementary_functions_body.hpp',
  [('TwoSum, TwoProduct, VeltkampSplitting',
    'numerics/double_precision_body.hpp'),
   ('ScaleB, LogB', 'numerics/scale_b_body.hpp'),
   ('NextUp, NextDown', 'numerics/next_body.hpp')],
  'property-based testing against exact rational arithmetic (GMP)',
  'Shaped doubles over the whole range, with and without FMA instructions.')

P('P06', 'Elementary functions are correctly rounded for every argument',
  '''The cube root, sine and cosine return the floating-point number closest to
  the mathematical value for every finite argument, however large and however
  close to a multiple of π/2, and propagate special values.  The reduction of an
  angle, the inverse and hyperbolic functions and the dimensionful overloads agree
  with the mathematical functions within the last places.''',
  'inputs', 'all 2^64 arguments: all magnitudes, near-ties, neighbourhoods of '
  'multiples of π/2, subnormals',
  '''Correct rounding fails only for rare arguments (near ties, near multiples of
  π/2, at the limits of the rescaling ranges), which tests with a few values never
  hit.''',
  'numerics/cbrt.cpp numerics/sin_cos.cpp numerics/angle_reduction_body.hpp '
  'numerics/payne_hanek.mathematica.h numerics/accurate_tables.mathematica.h '
  'numerics/elementary_functions_body.hpp functions/multiprecision.cpp',
  [('rounding test and correction of the cube root', 'numerics/cbrt.cpp'),
   ('rounding test and slow path of sin and cos', 'numerics/sin_cos.cpp'),
   ('Payne-Hanek reduction', 'numerics/angle_reduction_body.hpp'),
   ('accurate tables', 'numerics/accurate_tables.mathematica.h')],
  'property-based testing of hard-to-round and random arguments against exact '
  'interval arithmetic (GMP)',
  'About 10^5 arguments per function in the quick tier and several 10^6 in the '
  'thorough tier, with and without FMA instructions; the slow path of sin and '
  'cos is a stand-in for the library that the sandbox lacks.')

P('P07', 'Quantities compute as their values do and keep their dimensions',
  '''An operation on quantities has the value of the same operation on the
  magnitudes in the SI, and the dimensions that the law of the operation
  prescribes.  Every unit and constant has its defined value; text, serialized
  messages and parsed expressions give back the same magnitude and dimensions,
  and messages or expressions of other dimensions are rejected.''',
  'inputs', 'all magnitudes, all dimensions that can be represented, all unit '
  'expressions',
  '''The tests multiply a few units; wrong exponents show only for particular
  dimensions (negative, large, or in one of the eight base dimensions), a wrong
  constant only where it is used, and a parsing error for particular
  expressions.''',
  'quantities/quantities_body.hpp quantities/dimensions_body.hpp '
  'quantities/generators_body.hpp quantities/parser_body.hpp '
  'quantities/si_body.hpp quantities/si.hpp quantities/astronomy.hpp '
  'quantities/bipm.hpp quantities/cgs.hpp quantities/uk.hpp '
  'quantities/constants.hpp quantities/serialization_body.hpp',
  [('packing of the exponents', 'quantities/dimensions_body.hpp'),
   ('Format, DebugString', 'quantities/quantities_body.hpp'),
   ('ParseQuantity', 'quantities/parser_body.hpp')],
  'property-based testing of operations on generated dimensions and of a '
  'generated grammar of unit expressions, against explicit exponent vectors',
  'Arithmetic on 48 types with pseudo-random exponents; all the units and '
  'constants.')

P('P08', 'Linear and affine maps act as the groups they represent',
  '''Rotations, signatures, permutations, (orthogonal, conformal, homothetic)
  and affine maps send vectors, bivectors, trivectors, positions and forms where
  the linear map that they represent does, keep lengths, angles and orientation
  as their kind promises, and composition, inverse and identity obey the group
  laws.  Every constructor (axis and angle, Euler and Cardano angles, bases,
  frames), conversion between kinds, and round trip through a message gives the
  same map; quaternions and 3×3 matrices compute as in exact arithmetic, to
  rounding.''',
  'inputs', 'all maps, all compositions of any kinds of maps, all vectors and '
  'forms',
  '''The tests apply a few maps to a few vectors; a wrong sign or a swapped
  argument shows only for some parities, some Euler conventions, some quadrants,
  or for arguments of another grade.''',
  'geometry/rotation_body.hpp geometry/signature_body.hpp '
  'geometry/permutation_body.hpp geometry/orthogonal_map_body.hpp '
  'geometry/conformal_map_body.hpp geometry/homothecy_body.hpp '
  'geometry/affine_map_body.hpp geometry/identity_body.hpp '
  'geometry/quaternion_body.hpp geometry/r3x3_matrix_body.hpp '
  'geometry/sign_body.hpp geometry/linear_map_body.hpp '
  'geometry/space_transformations.hpp',
  [('Rotation, Euler and Cardano angles', 'geometry/rotation_body.hpp'),
   ('OrthogonalMap', 'geometry/orthogonal_map_body.hpp'),
   ('R3x3Matrix::Solve', 'geometry/r3x3_matrix_body.hpp')],
  'property-based testing of generated chains of maps against the 3×3 matrices '
  'that they represent, in extended precision',
  'The reference is a matrix computed from the parameters of the constructor by '
  'Rodrigues\' formula or products of elementary rotations.')

P('P09', 'Exterior algebra, forms, points and perspective are exact to rounding',
  '''Operations on multivectors of all grades, symmetric bilinear forms, points
  and barycentres, direct sums, pairs, complexified spaces, intervals and
  projective points have the values that algebra defines, to within a few
  roundings, and messages give back equal objects; a diagonalized form has its
  eigenvalues in order in a direct orthonormal basis that diagonalizes it.  A
  perspective shows exactly the part of a segment that lies behind the focal
  plane, and that no sphere hides.''',
  'inputs', 'all vectors, forms, points, segments, cameras and spheres',
  '''The tests have a few vectors and a few scenes; the errors appear for special
  configurations: a wrong sign for a product of certain grades, forms with equal
  eigenvalues, segments seen behind the camera, in quadrature with the sphere or
  through several spheres.''',
  'geometry/grassmann_body.hpp geometry/r3_element_body.hpp '
  'geometry/symmetric_bilinear_form_body.hpp geometry/point_body.hpp '
  'geometry/barycentre_calculator_body.hpp '
  'geometry/direct_sum_body.hpp geometry/complexification_body.hpp '
  'geometry/interval_body.hpp geometry/rp2_point_body.hpp '
  'geometry/perspective_body.hpp '
  'geometry/sphere_body.hpp',
  [('Multivector', 'geometry/grassmann_body.hpp'),
   ('SymmetricBilinearForm::Diagonalize',
    'geometry/symmetric_bilinear_form_body.hpp'),
   ('Perspective::VisibleSegments', 'geometry/perspective_body.hpp')],
  'property-based testing of generated operands and scenes against extended '
  'precision vectors and matrices and a ray-casting oracle',
  'Each scene is decided at 25 points of the segment, away from the limbs of '
  'the spheres.')

P('P10', 'Polynomials and Poisson series are the functions that they represent',
  '''Polynomials in the monomial, Чебышёв, Legendre and Hermite bases, and Poisson
  series, plain or piecewise, have at every time the value and derivatives of the
  mathematical function that they represent, and their sums, products,
  compositions, changes of origin, primitives, integrals, inner products, norms and
  Fourier transforms are those of that function, for every degree, evaluator,
  frequency and history of modifications, to rounding or quadrature accuracy.  All
  real roots of a Чебышёв polynomial are found.  Messages, including those of the
  older formats, give back the same function.''',
  'inputs and histories', 'all polynomials and series of the supported degrees, and '
  'all sequences of modifications of a piecewise series and of its copies',
  '''Trajectories, ephemerides and frequency analysis are made of them.  The tests
  have a few polynomials; the errors are in particular degrees or evaluators, for
  null, negative or repeated frequencies, for repeated or null roots, or appear when
  a cached spectrum outlives a change.''',
  'numerics/polynomial_in_monomial_basis_body.hpp '
  'numerics/polynomial_evaluators_body.hpp '
  'numerics/polynomial_in_чебышёв_basis_body.hpp '
  'numerics/legendre_body.hpp '
  'numerics/poisson_series_body.hpp '
  'numerics/piecewise_poisson_series_body.hpp '
  'numerics/apodization.cpp',
  [('PolynomialInMonomialBasis', 'numerics/polynomial_in_monomial_basis_body.hpp'),
   ('PoissonSeries', 'numerics/poisson_series_body.hpp'),
   ('PiecewisePoissonSeries::FourierTransform',
    'numerics/piecewise_poisson_series_body.hpp')],
  'property-based testing of generated polynomials and series against extended '
  'precision evaluation of the same functions; model-based testing of histories '
  'of piecewise series and their copies',
  'Quadratures are compared with a composite Gauss quadrature in extended '
  'precision; an inner product is only wrong if it remains so when its interval '
  'is slightly changed, as the adaptive quadrature may stop by accident.')

P('P11', 'Linear algebra, lattice reduction and nearest-neighbour search are correct',
  '''Matrices and vectors, of fixed size or on the heap, their views and their
  histories of modifications behave like the mathematical objects; every
  decomposition has factors of the prescribed structure whose product is the matrix,
  solutions solve their systems, eigenvalues and eigenvectors are those of the
  matrix, to an error proportional to its condition and to the rounding unit,
  and exactly over the rationals.  A reduced base generates the same lattice
  and satisfies the conditions of size and of Lovász.  The nearest neighbour found is
  the nearest, after any history of additions, and the Davenport q method finds the
  rotation that maximizes its gain.''',
  'inputs and histories', 'all matrices of reasonable condition, singular or '
  'structured; all bases; all sequences of insertions and searches',
  '''They underlie the approximations, the frequency analysis, the identification of
  parts with pile-ups and the accurate tables.  The tests have a few matrices; the
  errors are in the pivots, null columns, repeated eigenvalues, shapes and
  degenerate point sets.''',
  'numerics/fixed_arrays_body.hpp numerics/unbounded_arrays_body.hpp '
  'numerics/matrix_views_body.hpp numerics/matrix_computations_body.hpp '
  'numerics/lattices_body.hpp numerics/nearest_neighbour_body.hpp '
  'numerics/davenport_q_method_body.hpp',
  [('QRDecomposition, RealSchurDecomposition, Solve',
    'numerics/matrix_computations_body.hpp'),
   ('LenstraLenstraLovász', 'numerics/lattices_body.hpp'),
   ('PrincipalComponentPartitioningTree',
    'numerics/nearest_neighbour_body.hpp')],
  'property-based testing: residual and structure checks in extended or rational '
  'arithmetic, Hermite normal forms as oracles for lattices, and model-based '
  'histories for the arrays and the search tree',
  'Matrices are generated with known spectra and conditions, or with dependent '
  'columns over the rationals; bases with elements of up to 80 bits.')


P('P14', 'Integrators compute the steps and the histories of their methods',
  '''For every equation, initial state, direction and sequence of Solve, Clone and
  serialization, a fixed-step integrator appends exactly the steps that fit before the
  final time, each of them that of its method computed in extended precision, and
  continues from the last one; evaluation errors stop it or are reported.  An
  adaptive integrator chooses its steps from the ratios of tolerance to error,
  rejects those with a ratio below 1, respects its bound on the number of steps, and
  reaches the final time exactly or without overshooting, as demanded.
  Every method converges at its declared order.''',
  'inputs and histories', 'all methods, equations, states, time steps, histories, '
  'error ratios and faults of the evaluation',
  '''All trajectories of the game are computed by these integrators, restarted and
  copied at arbitrary points.  The tests run one equation per method over one
  history.''',
  'integrators/integrators_body.hpp integrators/methods.hpp '
  'integrators/symplectic_runge_kutta_nyström_integrator_body.hpp '
  'integrators/symmetric_linear_multistep_integrator_body.hpp '
  'integrators/embedded_explicit_runge_kutta_nyström_integrator_body.hpp '
  'integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator_body.hpp '
  'integrators/embedded_explicit_runge_kutta_integrator_body.hpp '
  'integrators/cohen_hubbard_oesterwinter_body.hpp '
  'integrators/starter_body.hpp',
  [('Instance::Solve',
    'integrators/symplectic_runge_kutta_nyström_integrator_body.hpp'),
   ('Instance::Solve',
    'integrators/symmetric_linear_multistep_integrator_body.hpp'),
   ('Instance::Solve',
    'integrators/embedded_explicit_runge_kutta_nyström_integrator_body.hpp')],
  'model-based testing of histories of integrations against a reference '
  'implementation in extended precision; observed orders of convergence for '
  'generated equations, and exact rational conditions for linear multistep methods',
  'The error ratios and the failures of the evaluations are scripted by the '
  'generator.  A known finding, a wrong coefficient of Fine1987RKNG34, is reported '
  'as such; the same method with the right coefficient must have its order.')


P('P15', 'Discrete trajectories keep their points and segments through any history',
  '''For every history of appending, downsampling, creating, detaching, attaching,
  deleting, forgetting, merging, moving, writing and reading, a discrete trajectory
  has exactly the segments and the points that the history defines, shows them
  identically through its iterators, searches and accessors, and evaluates to the
  Hermite interpolation of the neighbouring points.  Points are only dropped by the
  downsampling if the interpolation stays within the tolerance, and writing and
  reading, entirely or by ranges, preserves times, exact points and tracked segments,
  and the other points to the tolerance.''',
  'histories', 'all sequences of operations on several trajectories, all shapes of '
  'segments, including empty and one-point ones',
  '''Vessels, pile-ups and flight plans keep their past and future in these
  trajectories; a lost or misplaced point corrupts a saved game.  The tests exercise
  each operation on one trajectory of three regular segments.''',
  'physics/discrete_trajectory_body.hpp physics/discrete_trajectory_segment_body.hpp '
  'physics/discrete_trajectory_iterator_body.hpp '
  'physics/discrete_trajectory_segment_iterator_body.hpp '
  'physics/discrete_trajectory_types_body.hpp numerics/hermite3_body.hpp',
  [('DiscreteTrajectory', 'physics/discrete_trajectory_body.hpp'),
   ('DiscreteTrajectorySegment::Append',
    'physics/discrete_trajectory_segment_body.hpp'),
   ('DiscreteTrajectoryIterator', 'physics/discrete_trajectory_iterator_body.hpp')],
  'stateful model-based testing: generated histories on up to four trajectories, '
  'compared after each operation with a model made of vectors, under AddressSanitizer',
  'The zfp compressor is replaced by a stand-in that deliberately perturbs the values '
  'within the tolerance.  Preconditions documented by CHECKs are respected; negative '
  'distances between iterators are not supported by the code.')


P('P16', 'Ephemerides and continuous trajectories reconstruct the same past',
  '''A continuous trajectory evaluates, everywhere in its time interval, to the motion
  given by the appended points within its tolerance, whatever the sequence of
  appending, evaluating from several threads, prepending, writing and reading.  After
  any history of prolongations, serializations, reanimations and flows, including
  concurrent ones, an ephemeris covers the requested times, and its trajectories have
  exactly the values of an ephemeris that was only prolonged.''',
  'histories', 'all sequences of prolongations, checkpoints, writing, reading at any '
  'desired time, requested or awaited reanimations and flows, with the schedules of '
  'the reanimator thread',
  '''A saved game only contains checkpoints; everything else is recomputed, possibly
  in a different order, by a thread that may be restarted.  Any difference or gap
  corrupts the trajectories of the celestials or terminates the game.  The tests have
  a couple of fixed histories.''',
  'physics/continuous_trajectory_body.hpp physics/checkpointer_body.hpp '
  'physics/ephemeris_body.hpp integrators/starter_body.hpp '
  'numerics/newhall_body.hpp physics/clientele_body.hpp',
  [('ContinuousTrajectory::Append', 'physics/continuous_trajectory_body.hpp'),
   ('ContinuousTrajectory::Prepend', 'physics/continuous_trajectory_body.hpp'),
   ('Checkpointer', 'physics/checkpointer_body.hpp'),
   ('Ephemeris::Reanimate', 'physics/ephemeris_body.hpp')],
  'stateful model-based testing: generated histories, compared bit for bit with an '
  'ephemeris that is only prolonged, and with the motion that was sampled; concurrent '
  'readers and writers; checkpointers against a map, under AddressSanitizer',
  'The sampled motions are smooth and resolved by the step.  The schedules are those '
  'that the machine produces.')

P('P17', 'Ephemerides follow the laws of motion of their bodies and vessels',
  '''The accelerations, jerks, Jacobians and potentials that an ephemeris computes for
  massive and massless bodies are those of Newtonian gravitation with the geopotentials
  of the bodies.  Prolonging it, or flowing vessels with fixed or adaptive steps and
  intrinsic accelerations, gives the solution of the resulting equations of motion to
  the accuracy of the methods, up to the requested time or with an error status,
  conserving momentum and energy; collisions with bodies are reported as errors by
  fixed-step flows, and apsides are found where they are.''',
  'inputs', 'all systems of bodies, spherical or oblate, their states, parameters '
  'of the flows, accelerations, and times',
  '''Everything that players see is computed by these equations; the reaction forces,
  the indexing of oblate and spherical bodies and the handling of several flows have
  many combinations of which the tests exercise a few.''',
  'physics/ephemeris_body.hpp physics/geopotential_body.hpp physics/massive_body_body.hpp '
  'physics/massless_body_body.hpp physics/rotating_body_body.hpp',
  [('Ephemeris::ComputeGravitationalAccelerationByAllMassiveBodiesOnMasslessBodies',
    'physics/ephemeris_body.hpp'),
   ('Ephemeris::FlowODEWithAdaptiveStep', 'physics/ephemeris_body.hpp'),
   ('Ephemeris::FlowWithFixedStep', 'physics/ephemeris_body.hpp')],
  'generated systems of bodies; forces against a reference in extended precision that '
  'sums Legendre series, motions against an independent extrapolation integrator, '
  'invariants (momentum, angular momentum, energy), metamorphic relations',
  'Bodies and probes stay far from each other where accuracies are checked.')

P('P18', 'Reference frames place, move and accelerate points consistently',
  '''The body-centred, surface, body-direction, target, barycentric and
  rotating-pulsating frames have at all times the origin, axes and scale that their
  definitions prescribe; their velocities are the time derivatives of their positions,
  their geometric accelerations the second derivatives of free falls, and their
  rotation-free accelerations the opposite of the gradients of their potentials.
  Inverses, products, Frenet trihedra, equality, hashing and serialization of frames
  and of rigid and similar motions are consistent with this.''',
  'inputs', 'all systems of bodies, pairs or sets of bodies that define a frame, times, '
  'positions and velocities',
  '''Players see and plan everything in these frames; signs, transports and derivatives
  of rotating and pulsating axes are easy to get wrong, and the tests check them in a
  few symmetric configurations.''',
  'physics/rigid_reference_frame_body.hpp physics/reference_frame_body.hpp '
  'physics/barycentric_rotating_reference_frame_body.hpp '
  'physics/body_centred_body_direction_reference_frame_body.hpp '
  'physics/body_centred_non_rotating_reference_frame_body.hpp '
  'physics/body_surface_reference_frame_body.hpp '
  'physics/rotating_pulsating_reference_frame_body.hpp '
  'physics/body_surface_frame_field_body.hpp physics/rigid_motion_body.hpp '
  'physics/similar_motion_body.hpp',
  [('RigidReferenceFrame', 'physics/rigid_reference_frame_body.hpp'),
   ('BarycentricRotatingReferenceFrame',
    'physics/barycentric_rotating_reference_frame_body.hpp'),
   ('RotatingPulsatingReferenceFrame',
    'physics/rotating_pulsating_reference_frame_body.hpp'),
   ('RigidMotion', 'physics/rigid_motion_body.hpp'),
   ('SimilarMotion', 'physics/similar_motion_body.hpp')],
  'generated systems, frames and points; axes against their definitions, velocities and '
  'accelerations against eighth-order differences of the positions, potentials against '
  'their gradients; algebra of generated motions against a model',
  'The code ignores geopotentials in the angular accelerations, which limits the accuracy '
  'of the comparison for oblate bodies.  Configurations where the bodies move almost '
  'radially, which make the axes degenerate, are discarded.')

P('P19', 'Keplerian orbits and hierarchies of bodies follow the two-body problem',
  '''An orbit given by any valid pair of elements of its shape, its orientation and an
  anomaly, or by state vectors, has the elements and the state vectors of the two-body
  problem at all times, elliptic or hyperbolic, incoming or outgoing, and building it
  never fails.  The bodies of a hierarchical system, added in any order where parents come
  first, are in preorder by increasing semimajor axis, and each subsystem's barycentre
  follows its Jacobi elements with respect to the barycentre of its parent and of the
  inner subsystems, with the overall barycentre at rest at the origin.  Barycentres are
  the weighted means of the points.''',
  'inputs', 'all elements, state vectors, times and hierarchies',
  '''The initial state of the celestials of a game is defined by Jacobi elements, and the
  orbits displayed and used for navigation are osculating orbits; there are 250 ways of
  specifying an orbit and as many formulæ, and extreme anomalies, of which tests sample a
  handful.''',
  'physics/kepler_orbit_body.hpp physics/hierarchical_system_body.hpp '
  'physics/jacobi_coordinates_body.hpp geometry/barycentre_calculator_body.hpp '
  'numerics/root_finders_body.hpp',
  [('KeplerOrbit', 'physics/kepler_orbit_body.hpp'),
   ('HierarchicalSystem', 'physics/hierarchical_system_body.hpp'),
   ('JacobiCoordinates', 'physics/jacobi_coordinates_body.hpp'),
   ('BarycentreCalculator', 'geometry/barycentre_calculator_body.hpp')],
  'generated elements, states and hierarchies, compared with a model of the two-body '
  'problem in extended precision; searches at the ends of the brackets of Kepler\'s '
  'equation; round trips between states and elements',
  'Parabolic orbits are not implemented by the code.  Satellites of the same body are '
  'given by their semimajor axes, since the sort requires the same element for all.')

P('P20', 'Gravity models give the field of their coefficients, and bodies round-trip',
  '''The acceleration and the potential due to an oblate body, for all its zonal,
  sectoral and tesseral coefficients, are the gradient and the value of the series of
  spherical harmonics of its coefficients in the frame that rotates with the body,
  smoothly damped at the distances that the tolerance defines.  Bodies keep their
  parameters, have the rotations that these define, and are unchanged by writing and
  reading.''',
  'inputs', 'all coefficients, degrees and orders, positions, times, tolerances and '
  'parameters of bodies',
  '''The field of each planet perturbs every orbit; the recurrences, the damping
  thresholds and the many degrees are only tested with the gravity models of a few
  bodies.''',
  'physics/geopotential_body.hpp physics/harmonic_damping_body.hpp '
  'physics/oblate_body_body.hpp physics/rotating_body_body.hpp '
  'physics/massive_body_body.hpp numerics/legendre_normalization_factor.mathematica.h',
  [('Geopotential', 'physics/geopotential_body.hpp'),
   ('HarmonicDamping', 'physics/harmonic_damping_body.hpp'),
   ('OblateBody::Parameters', 'physics/oblate_body_body.hpp'),
   ('RotatingBody', 'physics/rotating_body_body.hpp')],
  'generated gravity models and positions, compared with an independent evaluation of '
  'the series in extended precision; round trips; generated rotations',
  'Degrees up to 30, the limit of the normal build; C21 and S21 are 0 as the code '
  'requires.')

P('P21', 'Torque-free rotations follow the equations of Euler',
  '''For any rigid body, initial attitude and angular momentum, the angular momentum in the
  body, the attitude and the rigid motion computed at any time are those of the exact
  torque-free rotation.  At all times, however distant, the angular momentum in space,
  its norm and the energy are conserved, the attitude is a rotation, and the centre
  follows the prescribed linear motion; a serialized solver is restored exactly.''',
  'inputs', 'all moments of inertia (spherical, symmetric or not), angular momenta (along '
  'the axes, near the separatrix or not), attitudes and times',
  '''The rotation of the vessels that are not under physics is that of the solver; the tests
  only look at a few bodies and momenta.''',
  'physics/euler_solver_body.hpp physics/euler_solver.hpp '
  'numerics/elliptic_functions.cpp numerics/elliptic_integrals.cpp',
  [('EulerSolver::AttitudeAt', 'physics/euler_solver_body.hpp'),
   ('EulerSolver::AngularMomentumAt', 'physics/euler_solver_body.hpp'),
   ('EulerSolver::MotionAt', 'physics/euler_solver_body.hpp'),
   ('EllipticΠ', 'numerics/elliptic_integrals.cpp')],
  'generated bodies, compared with a numerical integration of the equations of Euler in '
  'extended precision, and conserved quantities at distant times',
  'The tolerance follows the conditioning of the motion; nearly symmetric bodies and '
  'rotations about the intermediate axis are known findings for the attitude.')

P('P22', 'Apsides, nodes and collisions are those of the motion',
  '''For any sampled motion, exactly one apsis is found per change of sign of the radial
  velocity and exactly one node per crossing of the reference plane, of the right kind,
  at the right time, on the trajectory, within the requested times, filter and number of
  points.  The intervals where a collision is possible are exactly those where the
  distance is below the maximal radius, and the first collision is the first time where
  the trajectory meets the relief, within the requested error.''',
  'inputs', 'all motions, samplings, references, time ranges, limits, distances to the '
  'body, reliefs and rotations',
  '''Players plan their manoeuvres on apsides and nodes and see where they crash; the
  tests only look at a few Keplerian orbits.''',
  'physics/apsides_body.hpp numerics/approximation_body.hpp '
  'numerics/hermite3_body.hpp numerics/root_finders_body.hpp',
  [('ComputeApsides', 'physics/apsides_body.hpp'),
   ('ComputeNodes', 'physics/apsides_body.hpp'),
   ('ComputeCollisionIntervals', 'physics/apsides_body.hpp'),
   ('ComputeFirstCollision', 'physics/apsides_body.hpp')],
  'generated motions, compared with their exact apsides and crossings, with the signs of '
  'the sampled data and with a dense search for collisions',
  'The trajectory does not go through the centre of the body, and the relief is smooth.')

P('P23', 'Calendar dates and time scales agree with their definitions',
  '''Calendar, ordinal, week and Julian dates, and times of day, in all their textual
  forms denote the right instants, and strings that do not follow the accepted formats
  or that denote no date are rejected.  TT, TAI, UTC with its leap seconds, UT1 and TDB
  instants convert to and from each other according to the definitions of these scales
  and the tables of leap seconds and of UT1.  The Earth rotation angle is that of the
  UT1 of its instant.''',
  'inputs', 'all dates, times of day, strings near the accepted formats, time scales '
  'and instants',
  '''Every epoch of the initial states and every comparison with a published ephemeris
  goes through these conversions; the tests sample a few dates, none with negative
  years and few near leaps.''',
  'astronomy/date_time_body.hpp astronomy/time_scales_body.hpp '
  'astronomy/epoch.hpp astronomy/eop_c04.generated.h '
  'astronomy/experimental_eop_c02.generated.h',
  [('Date::Calendar and JulianDate', 'astronomy/date_time_body.hpp'),
   ('DateTimeAsUTC', 'astronomy/time_scales_body.hpp'),
   ('FromUT1 and EarthRotationAngle', 'astronomy/time_scales_body.hpp')],
  'generated dates, strings (valid ones, mutants of them, and random ones) and '
  'instants, compared with an independent calendar, grammar and table of leap seconds; '
  'round trips between forms and scales; interpolation of the tables of UT1',
  'UTC up to the last entry of the table of leap seconds of the code; years before the '
  'epoch of Julian dates are not exercised.')

P('P12', 'Root finders, extremum searches and optimizers find what they claim',
  '''Bisection and Brent's method return a point within the interval where the function
  vanishes or changes sign to within the stated number of ulps, and reject intervals
  without a sign change; the separation of zeroes only returns zeroes and returns them
  all for functions with few extrema; quadratic equations have the right number of
  accurate solutions.  Golden-section and Brent's searches return the extremum of a
  unimodal function, never outside of the interval, for minima and maxima alike.
  Gradient descent and multi-level single linkage return minima of smooth functions
  within their tolerance, all of them and each once, or say that there is none.''',
  'inputs', 'all functions, intervals, starting points, tolerances and orders',
  '''Apsides, nodes, encounters, Lagrange equipotentials and flight-plan optimization all
  are searches with these functions; the tests try a dozen functions.''',
  'numerics/root_finders_body.hpp numerics/gradient_descent_body.hpp '
  'numerics/global_optimization_body.hpp',
  [('Bisect, Brent, DoubleBrent', 'numerics/root_finders_body.hpp'),
   ('SolveQuadraticEquation', 'numerics/root_finders_body.hpp'),
   ('BroydenFletcherGoldfarbShanno', 'numerics/gradient_descent_body.hpp'),
   ('MultiLevelSingleLinkage', 'numerics/global_optimization_body.hpp')],
  'functions generated with known roots and extrema (smooth, discontinuous, wavy, '
  'saturated or underflowing); exact discriminants in 128-bit integers; metamorphic '
  'relations (opposite functions, instants)',
  'Completeness of the separation of zeroes only for polynomials of degree up to 3, and of '
  'the global searches only for well-separated wells of similar depths.')

P('P13', 'Approximations, transforms and quadratures reproduce their functions',
  '''Chebyshev series evaluate to their definition, with their derivatives and real roots,
  and the interpolants that are built from a function cover the interval and stay within
  their error estimate.  Discrete Fourier transforms, Gauss-Legendre, Clenshaw-Curtis and
  midpoint quadratures, Hermite polynomials, Newhall approximations and finite differences
  equal their definitions, and are exact for the polynomials of their degree.  Elliptic
  integrals and functions have the values of their definitions for all arguments.''',
  'inputs', 'all coefficients, degrees, intervals, samples and arguments',
  '''Continuous trajectories, plotting, downsampling, frequency analyses and the motion of
  asymmetric bodies rest on these; the tests use a few functions and tabulated values.''',
  'numerics/approximation_body.hpp numerics/fast_fourier_transform_body.hpp '
  'numerics/quadrature_body.hpp numerics/hermite2_body.hpp numerics/hermite3_body.hpp '
  'numerics/newhall_body.hpp numerics/finite_difference_body.hpp '
  'numerics/elliptic_integrals.cpp numerics/elliptic_functions.cpp',
  [('PolynomialInЧебышёвBasis',
    'numerics/polynomial_in_чебышёв_basis_body.hpp'),
   ('AdaptiveЧебышёвPolynomialInterpolant', 'numerics/approximation_body.hpp'),
   ('NewhallApproximationInMonomialBasis', 'numerics/newhall_body.hpp'),
   ('FukushimaEllipticBDJ', 'numerics/elliptic_integrals.cpp'),
   ('JacobiSNCNDN', 'numerics/elliptic_functions.cpp')],
  'generated series, polynomials, samples and arguments, compared with their definitions '
  'in extended precision (sums, naive transforms, exact integrals, Carlson\'s forms, the '
  'arithmetic-geometric mean)',
  'Integrals of the third kind are compared with a tolerance that grows near n = 1, where '
  'the algorithm cancels.  Two known findings.')
