#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the statements stay easy to edit)."""
import json, os
P = []
SP = 'include/opengv/sac/implementation/'


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe,
         'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


SMOKE = 'The 18 stable tests only print results of one random experiment each; they compare nothing. '

p('S01', 'Reported model, sample and inliers belong together',
  'Whenever a robust estimation run (RANSAC, multi-camera RANSAC, LMedS) reports success, the reported model is the one computed '
  'from the reported sample and had the best score among all hypotheses scored in the run (most inliers, the first of equals; for LMedS '
  'the smallest median of squared, zero-clipped residuals). The reported inliers are exactly the indices whose residual '
  'under that reported model passes the threshold.',
  ['inputs', 'histories'], 'every problem class, data set, sample sequence, iteration count and interleaving of degenerate and valid hypotheses',
  SMOKE + 'The relation must hold for every sequence of good, bad, degenerate and tied hypotheses.',
  [SP + 'Ransac.hpp', SP + 'Lmeds.hpp', SP + 'MultiRansac.hpp'],
  [('best-hypothesis update', 'Ransac/Lmeds/MultiRansac::computeModel'), ('inlier extraction after the loop', 'same functions')],
  ['return value of computeModel and the members model_, model_coefficients_, inliers_'],
  [('model_', 'sample of the best hypothesis', 'sac/SampleConsensus.hpp'), ('model_coefficients_', 'best model', 'sac/SampleConsensus.hpp')])
p('S02', 'A robust run reports only its own result',
  'What a robust estimation run returns and reports (success flag, sample, inliers, and the model when it succeeds) depends only on the problem, the settings '
  'and the hypotheses of that run, never on an earlier run of the same object. A run that finds no model reports '
  'failure with an empty sample and an empty inlier set.',
  ['histories', 'inputs'], 'every sequence of runs on one estimator object, including failing runs after successful ones',
  SMOKE + 'Each test runs each estimator object once.',
  [SP + 'Ransac.hpp', SP + 'Lmeds.hpp', SP + 'MultiRansac.hpp'],
  [('reset of the result members', 'computeModel of the three estimators')],
  ['return value of computeModel and the result members after a second run'])
p('S03', 'Iteration and skip budgets bound every robust run',
  'A robust estimation run scores at most the configured maximum number of hypotheses and discards at most ten times that many '
  'invalid ones; every pass of the sampling loop either consumes exactly one unit of one of these budgets or ends the run. '
  'The reported iteration number is the number of hypotheses scored, except that it is the largest integer when a sample cannot be drawn at all.',
  ['inputs', 'histories'], 'every problem, data set, maximum iteration count and mix of valid and invalid hypotheses',
  SMOKE + 'No test exhausts a budget.',
  [SP + 'Ransac.hpp', SP + 'Lmeds.hpp', SP + 'MultiRansac.hpp'],
  [('loop condition, counters and break', 'computeModel of the three estimators')], ['iterations_ and termination of computeModel'])
p('S04', 'RANSAC stops at the confidence-based iteration count',
  'RANSAC and multi-camera RANSAC keep sampling while the number of scored hypotheses is below log(1-p)/log(1-w^s), where p is the configured '
  'probability, s the total sample size and w the best inlier count so far divided by the number of allowed correspondences over all frames, '
  'with 1-w^s kept a machine epsilon away from 0 and 1. Before the first scored hypothesis this bound is 1.',
  ['inputs', 'histories'], 'every inlier ratio, sample size, probability and hypothesis history',
  SMOKE + 'A wrong exponent, ratio or clamp only changes how long a run takes or how often it fails.',
  [SP + 'Ransac.hpp', SP + 'MultiRansac.hpp'], [('update of the bound k', 'computeModel')], ['number of hypotheses tried before computeModel returns'])
p('S05', 'Counting and selecting inliers use the same strict threshold',
  'For every model and threshold, the number of inliers counted equals the number of inliers selected; a correspondence is an inlier exactly '
  'when its residual is strictly below the threshold, and selection returns the allowed indices of the inliers (not positions), in order and without remainders of earlier content. '
  'For multi-camera problems this holds per frame with the frame-local indices.',
  ['inputs'], 'every model, threshold, residual vector and index subset, single and multi-camera',
  SMOKE + 'Index subsets other than 0..n-1 and residuals equal to the threshold never occur in the tests.',
  [SP + 'SampleConsensusProblem.hpp', SP + 'MultiSampleConsensusProblem.hpp'],
  [('selectWithinDistance / countWithinDistance', 'SampleConsensusProblem, MultiSampleConsensusProblem')],
  ['results of selectWithinDistance and countWithinDistance'])
p('S06', 'Samples are distinct members of the allowed indices',
  'Every sample handed to a solver consists of exactly the sample size requested by the problem (per frame, for multi-camera problems), its members are pairwise different positions of the '
  'allowed index set given at construction or last set, and every remaining position is eligible at each draw. A sample that the problem itself declares unacceptable is never handed out. If too few indices are '
  'available no sample is produced and the run is told to stop.',
  ['inputs', 'histories'], 'every index set, sample size, random sequence and number of draws',
  SMOKE + 'Tests do not inspect samples and use index sets 0..n-1.',
  [SP + 'SampleConsensusProblem.hpp', SP + 'MultiSampleConsensusProblem.hpp'],
  [('partial Fisher-Yates shuffle', 'drawIndexSample'), ('size check', 'getSamples'), ('index installation', 'setIndices, setUniformIndices')],
  ['samples returned by getSamples'], [('shuffled_indices_', 'always a permutation of the allowed indices', 'sac/SampleConsensusProblem.hpp')])
p('S07', 'With the fixed seed, sampling is reproducible',
  'A robust problem constructed with the random-seed option off draws all of its randomness from a generator owned by that object and seeded with a constant, so the same '
  'sequence of operations gives the same results in every process and whatever else the program does with random numbers. '
  'The seed option given to a problem is honoured by every problem class.',
  ['histories', 'configurations', 'schedules'], 'every problem class, every earlier use of random numbers in the process and every interleaving with other problems',
  SMOKE + 'Tests run with random seeds, in one process, and compare nothing.',
  [SP + 'SampleConsensusProblem.hpp', SP + 'MultiSampleConsensusProblem.hpp', 'include/opengv/sac_problems', 'src/sac_problems', 'src/relative_pose/modules/main.cpp'],
  [('seed selection', 'constructors of SampleConsensusProblem and MultiSampleConsensusProblem'), ('random sources', 'all library code reachable from the problems')],
  ['model and inliers of two runs of the same program'])
p('S08', 'Absolute-pose, point-cloud and rotation residuals follow their definition',
  'When scoring a model, a world point gets 1 minus the cosine between its measured bearing and the direction to the point in its own camera (whose rotation and offset in the viewpoint are applied), '
  'a point pair gets the Euclidean distance between the first point and the transformed second point, and a rotation-only correspondence gets 1 minus the cosine between the first bearing and the rotated second bearing. '
  'One residual is produced per requested index, in the requested order, computed from the data of that index only.',
  ['inputs'], 'every adapter (central, non-central, multi-camera), model, index subset and order',
  SMOKE + 'Camera rotations other than the identity and reordered subsets are not scored in tests.',
  ['src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp',
   'src/sac_problems/point_cloud/PointCloudSacProblem.cpp', 'src/sac_problems/relative_pose/RotationOnlySacProblem.cpp'],
  [('getSelectedDistancesToModel', 'the four problem classes')], ['residuals returned by getSelectedDistancesToModel / getDistancesToModel'])
p('S09', 'Relative-pose residuals follow their definition',
  'When scoring a relative-pose model, the point is triangulated from the two bearings of the correspondence under that model, with each camera\'s offset and rotation '
  'in its viewpoint applied for non-central rigs, and the residual is the sum over both views of 1 minus the cosine between measured and reprojected bearing. '
  'One residual is produced per requested index, in the requested order, computed from the correspondence of that index only, for single and multi-camera problems.',
  ['inputs'], 'every adapter, model, index subset and order',
  SMOKE + 'Reordered subsets and rigs with rotated cameras are not compared to anything.',
  ['src/sac_problems/relative_pose'],
  [('getSelectedDistancesToModel', 'CentralRelativePose, NoncentralRelativePose, EigensolverSac, MultiCentralRelativePose, MultiNoncentralRelativePose problems')],
  ['residuals returned by getSelectedDistancesToModel / getDistancesToModel'])
p('S10', 'Refinement starts from the given model and uses exactly the given inliers',
  'Refining a robust result runs the non-linear (or closed-form) refinement of that problem on exactly the supplied inliers, starting from the supplied model, '
  'and returns the result of that refinement as the refined model. For multi-camera problems frame-local inliers are mapped to the correspondences they denote. '
  'A problem that offers no refinement hands the supplied model back.',
  ['inputs', 'histories'], 'every problem class, model, inlier set and earlier use of the adapter',
  SMOKE + 'Refinement results are printed, not compared, and always start from the value left in the adapter by scoring.',
  ['src/sac_problems'], [('optimizeModelCoefficients', 'all sample-consensus problems')], ['the refined model returned'])
p('S11', 'Hypotheses come from the sample and success means a model was produced',
  'A hypothesis is computed from correspondences of the drawn sample only, is reported valid only when a model has actually been produced, and when a solver returns several '
  'candidates the one that is best under the problem\'s own disambiguation score on sample members is returned. An empty candidate list is reported as an invalid hypothesis. '
  'Where hypotheses start from the pose prior of the adapter, neither generating nor scoring hypotheses changes that prior.',
  ['inputs'], 'every problem class, algorithm selection, sample and number of candidates',
  SMOKE + 'The outcome of a wrong candidate choice is just a worse hypothesis that RANSAC papers over.',
  ['src/sac_problems'], [('computeModelCoefficients', 'all sample-consensus problems')], ['model and flag returned by computeModelCoefficients'])
p('S12', 'Sample sizes suffice for the selected algorithm',
  'For every problem class and every algorithm it offers, the requested sample size is at least the number of sample members hypothesis generation reads '
  'and at least the minimal number the selected solver demands; every selectable algorithm has a sample size and a solver.',
  ['configurations'], 'every problem class and every value of its algorithm selector',
  SMOKE + 'Not all algorithm selections are run by the tests.',
  ['src/sac_problems', 'include/opengv/sac_problems'], [('getSampleSize(s) and computeModelCoefficients', 'all sample-consensus problems')],
  ['absence of aborts and out-of-range reads while sampling'])
p('M01', 'Solver overloads agree and subsets are respected',
  'Every solver gives the same result for "all correspondences" as for the explicit list 0..n-1, and for an index list it uses only correspondences in that list '
  '(for minimal solvers its leading members), each addressed through the list.',
  ['inputs'], 'every solver, data set, index list and order',
  SMOKE + 'Index lists are only used once per solver with the identity list.',
  ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'include/opengv/Indices.hpp'],
  [('Indices indirection', 'include/opengv/Indices.hpp'), ('public overloads', 'methods.cpp files')], ['results of the public solver functions'])
p('M02', 'Solvers pair data of the same correspondence',
  'Whenever a solver combines measurements - bearing with its point, first-view with second-view bearing, bearing with its camera\'s offset and rotation, weight with its bearing - '
  'they belong to the same correspondence and each is used in its own view role. No measurement of one view or camera is taken for another, and every listed correspondence contributes. '
  'On exact data the equations formed from the measurements are satisfied by the true model.',
  ['inputs'], 'every solver, adapter and index list',
  SMOKE + 'A mixed-up index only degrades accuracy that no test checks.',
  ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp'],
  [('accessor calls per correspondence', 'solver functions')], ['results of the public solver functions'])
p('M03', 'Solvers reject fewer correspondences than they need',
  'Every solver checks, before it reads any correspondence, that it was given at least the number of correspondences its algorithm needs, and never reads a fixed-position '
  'correspondence beyond that number.',
  ['inputs'], 'every solver and number of correspondences',
  SMOKE + 'Tests always pass enough correspondences.',
  ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp'],
  [('assertion at solver entry', 'solver functions')], ['abort instead of out-of-range reads'])
p('A01', 'Adapters return the user\'s data for the index asked',
  'Each adapter accessor returns the element of the user-supplied container that belongs to the queried correspondence (and view), with camera offset and rotation looked up through that correspondence\'s '
  'camera index; central adapters report zero offset and identity rotation, and unit weight where no weights were given. Accessors never depend on the pose prior or on earlier calls.',
  ['inputs', 'histories'], 'every adapter class, accessor, index and earlier use',
  SMOKE + 'Tests use one or two camera set-ups and never compare accessor results.',
  ['src/absolute_pose', 'src/relative_pose', 'src/point_cloud', 'include/opengv'], [('accessor overrides', 'all adapter classes')], ['return values of adapter accessors'])
p('A02', 'Multi-camera flat indices address every correspondence exactly once',
  'For multi-camera adapters, the flat index of a (frame, local) pair and the frame and local index of a flat index are inverse to each other for every frame layout, and the total count is the sum over frames. '
  'Flat and per-frame access give the same data.',
  ['inputs'], 'every number of frames, per-frame counts (also different or zero) and index',
  SMOKE + 'Tests use equal counts in every frame.',
  ['src/absolute_pose/NoncentralAbsoluteMultiAdapter.cpp', 'src/relative_pose/CentralRelativeMultiAdapter.cpp', 'src/relative_pose/NoncentralRelativeMultiAdapter.cpp',
   'src/relative_pose/MANoncentralRelativeMulti.cpp', 'include/opengv/absolute_pose/AbsoluteMultiAdapterBase.hpp', 'include/opengv/relative_pose/RelativeMultiAdapterBase.hpp'],
  [('singleIndexOffsets, multiFrameIndices', 'adapter constructors'), ('convertMultiIndex, multiFrameIndex, multiCorrespondenceIndex', 'multi adapters')],
  ['accessors of multi-camera adapters'])
p('A03', 'Adapters keep user data untouched and carry the pose prior faithfully',
  'An adapter constructor stores the given prior (translation, rotation) and none other, a prior set later is the one read back, defaults are zero translation and identity rotation, and '
  'no accessor, solver or robust problem modifies the measurement data handed in by the user.',
  ['inputs', 'histories'], 'every adapter, constructor and call sequence',
  SMOKE + 'Priors and data are never read back.',
  ['include/opengv/absolute_pose', 'include/opengv/relative_pose', 'include/opengv/point_cloud', 'src'],
  [('base-class constructors, setters and getters', 'adapter bases')], ['getR/gett, getR12/gett12 and the user containers'])
p('T01', 'Two-view triangulation solves the stated least-squares problem',
  'Given rays from both views, the fast triangulation returns the midpoint of the closest points on both rays, and the linear triangulation the null vector of the stacked cross-product constraints of both projections; '
  'both express the point in the first view, using the relative pose of the adapter and the bearings of the queried correspondence.',
  ['inputs'], 'every adapter, pose and correspondence', SMOKE + 'The triangulation test prints an error and compares nothing.',
  ['src/triangulation/methods.cpp'], [('triangulate, triangulate2', 'src/triangulation/methods.cpp')], ['returned 3D point'])
p('T02', 'Rotation conversions are mutually consistent',
  'cayley2rot maps every Cayley vector c to the rotation of the quaternion (1,c), cayley2rot_reduced to (1+|c|^2) times that rotation, and rot2cayley inverts cayley2rot; quaternion2rot maps a unit quaternion (w,x,y,z) to its rotation and '
  'rot2quaternion returns that unit quaternion up to sign for every rotation, the identity and axis-aligned rotations included; arun returns V*D*U\' of the decomposed matrix, D flipping the smallest singular direction exactly when the result would be a reflection.',
  ['inputs'], 'every rotation, Cayley vector, quaternion and correlation matrix', SMOKE + 'Conversions are only used inside other code on a few random rotations.',
  ['src/math'], [('cayley2rot, cayley2rot_reduced, rot2cayley', 'src/math/cayley.cpp'), ('quaternion2rot, rot2quaternion', 'src/math/quaternion.cpp'), ('arun', 'src/math/arun.cpp')], ['converted rotation'])
p('T03', 'Closed-form alignments solve the problem they state',
  'threept_arun, arun_complete and rotationOnly align the centred data by the correlation sum (x2-c2)*(x1-c1)\', threept_arun and arun_complete returning [R | c1-R*c2]; twopt_rotationOnly aligns both bearings the same way; '
  'twopt returns the unit epipole normal to both epipolar planes, oriented with the optical flow and after unrotating the second view when asked; p2p returns the position that sees both points along their bearings under the prior rotation, whatever the direction between the points.',
  ['inputs'], 'every adapter, index pair and index list of sufficient size', SMOKE + 'Degenerate directions and sign cases do not occur in random scenes.',
  ['src/point_cloud/methods.cpp', 'src/relative_pose/methods.cpp', 'src/absolute_pose/methods.cpp', 'src/math/arun.cpp'], [('threept_arun', 'src/point_cloud/methods.cpp'), ('twopt, twopt_rotationOnly, rotationOnly', 'src/relative_pose/methods.cpp'), ('p2p', 'src/absolute_pose/methods.cpp'), ('arun_complete', 'src/math/arun.cpp')], ['returned rotation, translation or pose'])
p('T04', 'Polynomial root finders cover every root',
  'o3_roots and o4_roots return the real parts of all roots, with multiplicity, of every cubic and quartic with a leading coefficient other than zero, including double, triple and quadruple roots, biquadratic and pure polynomials. '
  'Sturm: the sequence is p, p\' and the negated remainders up to positive factors (also when degrees drop by more than one), evaluating it counts sign variations, the first bracket strictly contains every real root, '
  'splitting a bracket never loses a root and passes on the right counts, each bracket with one root yields one estimate inside it, and polishing takes Newton steps of p. Stated in real arithmetic and, for Sturm, for polynomials with simple roots; convergence of Newton steps is not part of it.',
  ['inputs'], 'every polynomial with non-zero leading coefficient', SMOKE + 'The tests print the roots of one or two random polynomials; degenerate coefficients never occur.',
  ['src/math/roots.cpp', 'src/math/Sturm.cpp', 'include/opengv/math/roots.hpp', 'include/opengv/math/Sturm.hpp'], [('o3_roots, o4_roots', 'src/math/roots.cpp'), ('Sturm, Bracket', 'src/math/Sturm.cpp')], ['returned root lists'])
p('N01', 'Non-linear refinement optimises the documented reprojection residual',
  'Each non-linear refinement packs the starting pose into its parameter vector and unpacks the optimum with the same convention, evaluates one residual per used correspondence with the reprojection definition of its problem, '
  'and returns the pose unpacked from the optimised parameters.',
  ['inputs'], 'every adapter, index list and starting pose', SMOKE + 'Refinement output is only printed.',
  ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp'], [('optimize_nonlinear and its functors', 'methods.cpp files')], ['the refined transformation'])
p('L01', 'Library calls share no mutable state',
  'Library functions keep no mutable state outside the objects passed to them: no function-local or namespace-scope variable is modified, and no process-wide generator, locale or environment is touched. '
  'Calls on distinct objects can therefore run concurrently and in any order.',
  ['schedules', 'histories'], 'every set of library calls on distinct objects, in any interleaving', SMOKE + 'Tests are single-threaded and sequential.',
  ['src', 'include/opengv'], [('storage classes and calls', 'all library functions')], ['results of concurrent calls'])
p('L02', 'No result depends on uninitialised storage',
  'No local variable, element of a local array or matrix, or member of a local object is read by a library function before it has been written, on any path of the function and of the functions it calls, except storage the code only copies whole.',
  ['inputs'], 'every path of every library function', SMOKE + 'Uninitialised reads often give the expected value in a small test.',
  ['src', 'include/opengv'], [('definite assignment', 'all library functions')], ['determinism of results'])
p('L03', 'Fixed element positions lie inside their arrays',
  'Every access at a position the code itself determines (constants, counters of loops with constant bounds) to an array, matrix or container whose size the code itself determines lies inside it, and matrix blocks, products, sums and assignments have matching dimensions.',
  ['inputs'], 'every library function', SMOKE + 'Release builds disable these checks.',
  ['src', 'include/opengv'], [('constant indices', 'all library functions')], ['absence of out-of-range access'])
p('L04', 'Dynamically created objects are released exactly once',
  'Every object or array created by a library function is released exactly once on every path by the matching form of release, is not used after release, and is not released by a destructor that the static type cannot reach.',
  ['inputs', 'histories'], 'every path of every library function, including early returns', SMOKE + 'Leaks and mismatched releases do not fail tests.',
  ['src', 'include/opengv'], [('new/delete pairing', 'all library functions and destructors')], ['memory use over many calls'])
p('L05', 'Fixed-size vectorised storage is always allocated aligned',
  'Every class of the public interface that directly stores fixed-size vectorisable matrices or vectors overloads allocation for alignment or is never allocated dynamically by the library, '
  'and containers of such types use an aligned allocator.',
  ['configurations', 'histories'], 'every class and instantiation of the library', SMOKE + 'The default allocator happens to align to 16 bytes on this platform.',
  ['include/opengv'], [('EIGEN_MAKE_ALIGNED_OPERATOR_NEW and aligned_allocator', 'all classes')], ['absence of misaligned access'])
p('B01', 'Language bindings reach the solver their name promises',
  'Each function or algorithm name offered by the scripting bindings calls the library solver of that name with the caller\'s data in the documented argument order and returns that solver\'s result; unknown names are rejected.',
  ['inputs', 'configurations'], 'every binding entry point and algorithm name', 'The bindings are not built or run by any test here.',
  ['python/pyopengv.cpp', 'matlab/opengv.cpp'], [('dispatch tables', 'python/pyopengv.cpp, matlab/opengv.cpp')], ['results seen from Python or Matlab'])
p('N02', 'Solvers keep the true pose among their candidates',
  'On noise-free data in general position, computed in exact arithmetic (exact eigenvectors, null spaces, roots), the true pose (for twopt the translation direction, for the essential-matrix solvers the essential matrix up to scale) is among the candidates returned by p2p, p3p_kneip, p3p_gao, gp3p, epnp, gpnp, upnp (3 or at least 5 points), twopt, twopt_rotationOnly, rotationOnly, fivept_stewenius, fivept_nister, fivept_kneip, sevenpt, eightpt, sixpt and seventeenpt, also when more than the minimal number of correspondences is given, whatever subset of the adapter is selected; gpnp also keeps it where repeated or degenerate points leave a solution space of up to five dimensions. Decisions by sign in p2p, p3p_kneip, p3p_gao, gp3p, epnp and seventeenpt (hemisphere, sign of a root, exchange of points, choice of a candidate) fall so that the true pose is kept. The eigensolver started at the true rotation keeps it, and what it drives to zero is the derivative of an eigenvalue of the weighted sum of n n^T, n = f1 x R f2, by the Cayley parameters of R. No candidate of the essential-matrix solvers violates the epipolar constraint of a used correspondence (minimal five-point, seven-point, eight-point).',
  ['inputs'], 'every pose, scene, rig and solver named', SMOKE + 'Tests print errors for one random scene; a wrong coefficient that matters only for some configurations goes unnoticed.',
  ['src/absolute_pose', 'src/relative_pose', 'src/math'], [('public solvers', 'src/absolute_pose/methods.cpp, src/relative_pose/methods.cpp'), ('elimination templates', 'src/absolute_pose/modules, src/relative_pose/modules')], ['returned transformations, rotations, essential matrices'])
p('N03', 'RANSAC succeeds with the configured probability',
  'With inlier ratio w, a RANSAC run draws an all-inlier sample with at least the configured probability before it stops.',
  ['inputs', 'histories'], 'every inlier ratio and data set', SMOKE + 'One run per test.',
  [SP + 'Ransac.hpp'], [('adaptive stopping and sampling', 'computeModel, drawIndexSample')], ['success rate over many runs'])

ids = [x['id'] for x in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
