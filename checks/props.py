"""The properties (source of properties.jsonl and MANIFEST.json, written by tools/gen.py)."""

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, rule, note='', assumptions=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  rule=rule, note=note, assumptions=list(assumptions), observe=list(observe)))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                   reason=reason))


ENGINE = ('Abstract interpretation of the source in /repo: every function reached is interpreted over abstract scalars '
          '(global value numbers of rational/transcendental terms over input atoms), with exact allocation-site aliasing '
          'of arrays; predicates the domain cannot decide and every numerical-library fault are partitioned; an '
          'obligation is discharged when both sides get the same value number on every partition. ')
A_NUM = 'real arithmetic: equalities are exact over the reals; rounding is not modelled'
A_DIM = 'the abstract dimensions, chain lengths and iteration counts enumerated per scenario (listed in the evidence)'
A_LIB = 'the transfer functions written for numpy/scipy/sqlite3/autograd calls describe those libraries'
A_HASH = 'value numbering by random interpretation: two different terms share a number with probability below 2^-120'
A_REG = 'generic position: an atom-valued denominator, pivot or comparison of non-constant terms does not vanish, ' \
        'except in the special cases explored separately (each input atom equal to each constant the code compares it with)'
BASE = [A_NUM, A_DIM, A_LIB, A_HASH, A_REG]

SM, LA, ME = 'StateModel/Gaussian.py', 'Utils/linalg.py', 'Utils/Metrics.py'
UT, TT, MC, ES = ('MomentMatching/UnscentedTransform.py', 'MomentMatching/TaylorLinearisation.py',
                  'MomentMatching/MonteCarloTransform.py', 'MomentMatching/Estimator.py')
ND, IT = 'ExpectationPropagation/Nodes.py', 'ExpectationPropagation/Iterations.py'
KF, DS, DB = 'Filters/KalmanFilter.py', 'Systems/DynamicSystem.py', 'Utils/Database.py'
EX = 'Experiments/EP_FullSweep.py'
EB, IB = 'Experiments/EP_Sweep_BearingsOnly.py', 'Experiments/IEKS_Sweep_BearingsOnly.py'

prop('C01', 'Gaussian states form an algebra: product, quotient, power, equality',
     'The product of two Gaussian states adds their precisions and shifts, the quotient subtracts them, and a real power '
     'scales them, exactly and whichever parametrisation (moments or natural parameters) each operand was given in and '
     'whatever was read from it before. Hence multiplying and dividing by the same factor cancel, products associate, '
     'powers add and multiply, and the identity factor (zero precision and shift) is neutral; the uninformative state has '
     'zero mean and a huge isotropic covariance. Two states compare equal exactly when mean and covariance agree (up to '
     'tolerance), however they were specified.',
     ['inputs', 'histories'], 'for all pairs and triples of states of any dimension, given by moments or natural '
     'parameters, all real exponents, and any order of earlier attribute reads',
     'the tests multiply and divide a couple of concrete states; they cannot cover every parametrisation, caching history '
     'and exponent',
     [SM, LA], [('__mul__/__truediv__/__pow__ on natural parameters', SM + ':Gaussian'),
                ('as_factor / as_marginal', SM + ':Gaussian'), ('__eq__', SM + ':Gaussian')],
     'Each binary operation, law, power and constructor is evaluated on symbolic operands; resulting precision, shift, '
     'mean and covariance must have the value numbers of the reference operation.')

prop('C02', 'Moments and natural parameters of a state always describe the same Gaussian',
     'However a state is constructed (moments or natural parameters; positional, keyword or list arguments) and in '
     'whatever order its mean, covariance, precision, shift, dimension and Cholesky factor are read, precision is the '
     'inverse covariance, shift is precision times mean, and the Cholesky factor is lower triangular and squares to the '
     'covariance; the parameters that were given are returned as given and converted matrices are symmetric. A precision '
     'with (nearly) zero trace reads as zero mean and huge covariance. When a factorisation fails, the conversion either '
     'raises or inverts the matrix perturbed by at most 1e-8 times the identity, with mean and shift consistent with it.',
     ['inputs', 'histories', 'fault_sequences'], 'for all parameters, all orders of attribute access, and every '
     'combination of failing factorisations in the conversion',
     'the tests read a few attributes once on well-conditioned states; access orders and failing factorisations are never '
     'exercised',
     [SM, LA], [('lazy conversion', SM + ':natural_to_moment, moment_to_natural'), ('jittered fallback', LA + ':jittered_solve')],
     'All permutations of the four parameter reads (both modes) and every partition of factorisation faults and of the '
     'flat-precision predicate are interpreted; every value read must equal the reference conversion.')

prop('C03', 'Operations never change the objects and arrays they are given',
     'Algebra on states, metrics, linear-algebra helpers, moment-matching transforms, estimator projections, filters, '
     'smoothers, chain construction, the benchmark systems (construction, transition, measurement, simulation) and '
     'storing in the database leave every operand, array, list, noise covariance and system they were given '
     'with the values and behaviour it had before, on success and when a factorisation fails. A result keeps its value '
     'when its operands are used further.',
     ['inputs', 'histories', 'fault_sequences'], 'for all operands in every caching state, all shapes of measurement '
     'lists, repeated calls, and a failing factorisation inside an operation',
     'the tests compare return values; an operand overwritten in place, or a system left modified, shows only in what a '
     'later call computes',
     [SM, LA, ME, UT, TT, MC, ES, ND, KF],
     [('fresh arrays in every operation', SM), ('overwrite_a/overwrite_b flags off', LA), ('noise matrices only read', ES)],
     'Arrays are exact allocation sites in the abstract heap: after each operation every component of every input array, '
     'list and state must carry its initial value number; a write is reported at its statement.')

prop('C04', 'Metrics are the mean NLL and the root mean squared error of the states',
     'The negative log likelihood of a state at a point is the exact multivariate normal one and its squared error the '
     'squared Euclidean distance of the mean. Over a time series the NLL is the arithmetic mean of the per-step values '
     'and the RMSE the square root of the mean of the per-step squared errors (summed over components), pairing step i '
     'with truth i; for a chain they are taken from the marginals, in the order (RMSE, NLL).',
     ['inputs'], 'for all states (either parametrisation), truths, series lengths and container types',
     'no test evaluates the metrics against a reference; every reported experiment number rests on them',
     [SM, ME], [('nll / squared_error', SM), ('nll, rmse, node_metrics', ME)],
     'Symbolic states and truths; the metric terms must have the value number of the reference formula.')

prop('C05', 'The unscented transform uses the prescribed sigma points and weights',
     'For dimension d and parameters alpha, beta, kappa, with lambda = alpha^2 (d + kappa) - d, the map is evaluated at '
     'the mean and at 2d points in pairs symmetric about it whose spread is (d + lambda) times the covariance; mean, '
     'covariance and cross-covariance are the weighted sums with the standard weights. It is exact for affine maps, '
     'keeps no memory between uses or between instances, and defaults to alpha=1, beta=2, kappa=1. After a failed '
     'factorisation it raises or uses the covariance perturbed by at most 1e-8 times the identity.',
     ['inputs', 'configurations', 'fault_sequences'], 'for all states, nonlinear maps, dimensions and parameters, repeated '
     'uses of one transform and several transforms together',
     'the tests check a fixed linear or polynomial map at fixed parameters in fixed dimension',
     [UT, 'MomentMatching/MomentMatch.py', LA], [('sigma points and weights', UT)],
     'The map is an uninterpreted function; the analysis recovers the set of points it is evaluated at and checks pairing, '
     'spread and the weighted sums symbolically, for symbolic and concrete parameters.')

prop('C06', 'The Taylor transform linearises at the mean',
     'The result is the map at the mean, J C J^T and C J^T with J the Jacobian at the mean of this state, for every state '
     'and output dimension including one, whether the map returns vectors or row matrices; it is exact for affine maps '
     'and keeps no memory between uses. The numerical Jacobian offered beside it is that of central differences.',
     ['inputs', 'configurations'], 'for all states, differentiable maps and dimensions, and repeated uses',
     'the tests use one map and dimension; a lost axis, a stale Jacobian or a transposed product shows only in others',
     [TT], [('autograd jacobian', TT)],
     'The map is an uninterpreted differentiable function with symbolic partial derivatives; the three outputs must equal '
     'the reference products.')

prop('C07', 'Sampling and the Monte Carlo transform are unbiased and independent',
     'Samples of a state are independent draws with exactly its mean and covariance. The Monte Carlo transform evaluates '
     'the map once at each of the requested number of such samples and returns their sample mean and the unbiased '
     '(n-1) sample covariance and cross-covariance, drawing afresh on each use.',
     ['inputs', 'histories'], 'for all states, maps, dimensions, sample counts and repeated uses',
     'tests of random estimates can only use loose tolerances, under which a biased divisor or a wrong factor passes',
     [SM, MC], [('sample', SM), ('sample moments', MC)],
     'Draws are uninterpreted terms with abstract second moments: mean and covariance of the evaluation points are computed '
     'symbolically and the returned values must equal the sample moments over those points.')

prop('C08', 'EP time update: the projected, damped, powered forward message',
     'The forward update of step i forms the cavity of the previous step (its marginal without its backward message at '
     'the given power; the prior for the first step), projects it through the transition at the time of step i with '
     'covariance (C + Q)/power, mixes it with the old message by the damping exponent, and moves the marginal by the '
     'ratio of messages to the power 1/power. Nothing else in the chain changes and the new marginal is coherent.',
     ['histories', 'inputs', 'configurations'], 'for every state of the chain any earlier updates can have produced, '
     'every power and damping in (0,1], every moment-matching rule, system, dimension and position in the chain',
     'the tests run a few sweeps at default settings; power and damping below one and non-initial states are not reached',
     [ND, ES], [('Node.fwd_update', ND), ('proj_trans', ES)],
     'One update from arbitrary symbolic marginals and messages (inductive over histories) with uninterpreted transforms, '
     'system and symbolic power/damping; every belief of the chain is compared with the reference update.')

prop('C09', 'EP measurement update: the projected, damped measurement message',
     'The measurement update removes the old measurement message from the marginal, conditions the cavity on the step\'s '
     'own measurement with innovation covariance C + R/power, and moves measurement message and marginal by the damped '
     'ratio of the projected state to the old marginal (to the power damping, and damping/power for the marginal). '
     'Nothing else in the chain changes.',
     ['histories', 'inputs', 'configurations'], 'for every state of the chain any earlier updates can have produced, '
     'every power and damping, moment-matching rule, system, measurement, dimension and position',
     'the tests run a few sweeps at default settings on one system',
     [ND, ES], [('Node.meas_update', ND), ('proj_meas', ES)],
     'As for the time update.')

prop('C10', 'EP backward update: the projected, damped backward message',
     'The backward update of a step combines its own backward cavity with the next step\'s forward cavity through the '
     'transition of the next step (smoothing gain with (C + Q)/power-scaled noise; the next marginal itself at power one) '
     'and moves backward message and marginal by the damped ratio; the last step is left alone. Nothing else in the '
     'chain changes.',
     ['histories', 'inputs', 'configurations'], 'for every state of the chain any earlier updates can have produced, '
     'every power and damping, moment-matching rule, system, dimension and position',
     'the tests run a few sweeps at default settings on one system',
     [ND, ES], [('Node.back_update', ND), ('proj_back', ES)],
     'As for the time update, power one being explored as a separate case.')

prop('C11', 'A failing EP update changes nothing; marginal and message move together',
     'When a factorisation anywhere inside a node update fails or warns, the update is abandoned without an exception or '
     'completes, and either way only the node\'s marginal and the one message move, by matching factors (old marginal '
     'times message ratio to the power 1/power); an abandoned update changes nothing. An update whose projection or new '
     'marginal is not positive definite is refused. Errors that are not numerical (wrong types, wrong shapes) still '
     'surface.',
     ['fault_sequences', 'histories'], 'for every single failure and every pair of failures of a numerical library call '
     'inside each of the three updates, from every chain state',
     'numerical failures occur at unpredictable points of long runs; tests do not provoke them',
     [ND, ES, SM, LA], [('try/except around each update', ND), ('validate_covariance', LA)],
     'Every library call that can raise LinAlgError/LinAlgWarning is a fault point; all single faults and pairs (thorough: '
     'triples) are enumerated as partitions and the transactional invariant is checked on each.',
     note='Fault points are the raising library calls; at most two (thorough: three) failures per update.')

prop('C12', 'Estimator projections: power-scaled noise and exact Gaussian conditioning',
     'With moments (mean, C, cross) from the configured transition or measurement transform: the time projection has '
     'covariance (C + Q)/power; the measurement projection conditions the state with innovation covariance C + R/power; '
     'the backward projection smooths towards the next state, or towards the prediction times the powered forward cavity. '
     'Estimators do not interfere with each other, power and damping default to one, noise matrices stay as given, and a '
     'predicted or innovation covariance that is not positive definite raises instead of giving a state.',
     ['inputs', 'configurations'], 'for all states in either parametrisation, transforms, noise, measurements (vectors, '
     'lists, scalars), powers and dimensions, and repeated use',
     'the tests exercise only power one on one system',
     [ES], [('proj_trans, proj_meas, proj_back', ES)],
     'Projections on symbolic states with an uninterpreted transform, symbolic power (and power one separately).')

prop('C13', 'Kalman predict, correct and smooth steps are the Gaussian recursions',
     'With any moment-matching rule, prediction adds the system noise to the matched moments, correction conditions on '
     'the measurement with gain cross-covariance times inverse innovation covariance, and the smoothing step is the '
     'Rauch-Tung-Striebel recursion, at the time and input given; a single transform serves both maps when only one is '
     'given.',
     ['inputs', 'configurations'], 'for all states, maps, times, inputs, noises, dimensions and transforms',
     'the tests compare one scalar example', [KF],
     [('KalmanFilterSmoother.predict/correct/smooth', KF)],
     'Steps on symbolic states with uninterpreted transforms and system maps.')

prop('C14', 'The Kalman filter processes every measurement once, in order, at its time',
     'The filter returns one state per measurement, the i-th obtained from the previous one (the given prior, or the '
     'system\'s initial distribution) by prediction and correction with measurement i at time t_zero + i dt and the given '
     'input; running it again gives the same result, and measurements may be arrays, lists or rows.',
     ['inputs', 'histories'], 'for all series lengths, priors, start times, inputs, systems, transforms, dimensions',
     'the tests run one series from the default prior at time zero', [KF],
     [('kalman_filter', KF)],
     'The loop is interpreted for lengths 1, 2, 3, 5 and 130 with uninterpreted transforms and system; each returned '
     'state must equal the reference recursion.')

prop('C15', 'The Kalman smoother is the backward recursion over the filtered states',
     'The smoother returns one state per filtered state in time order: the last is the last filtered one and each '
     'earlier one is the smoothing step between its filtered state and the smoothed next state, with the transition at '
     'the time of the next step (from t_zero) and the given input; the list it was given is left as it was, and it may '
     'be run repeatedly.',
     ['inputs', 'histories'], 'for all series lengths, states, start times, inputs, systems, transforms, dimensions',
     'the tests run one time-invariant series', [KF], [('kalman_smoother', KF)],
     'As for the filter; filter and smoother are also analysed together.')

prop('C16', 'The iterated EKF iterates the correction about the new estimate',
     'Each step predicts with the linearised transition, then corrects the requested number of times, relinearising the '
     'measurement at the latest estimate and conditioning the prediction; the result is one state per measurement at the '
     'right times. It is exact for affine systems at any number of iterations, and repeated calls do not influence each '
     'other.',
     ['inputs', 'histories', 'configurations'], 'for all systems, series, start times, inputs, iteration counts, dimensions',
     'the tests only compare with the plain filter on a single example', [KF], [('IEKF', KF)],
     'Interpreted with uninterpreted differentiable maps (symbolic Jacobians) against the Gauss-Newton reference.')

prop('C17', 'The iterated EKS relinearises about the previous smoothed path',
     'Each pass filters and smooths the whole series with transition and measurement linearised about the previous '
     'pass\'s smoothed states; the result after the requested number of passes is the last smoothed path. It is exact for '
     'affine systems, and a call leaves the system as it was so that repeated calls, also after a failed one, do not '
     'influence each other.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'], 'for all systems, series, pass counts and dimensions, '
     'sequences of calls, and a numerical failure in an earlier call',
     'the tests only run one call on one example', [KF], [('IEKS', KF)],
     'Interpreted with uninterpreted differentiable maps against the reference recursion; earlier failed calls are '
     'enumerated as fault partitions.')

prop('C18', 'EP sweeps update every node in order; each iteration is recorded and committed',
     'A filter pass does time then measurement update from first to last step, a smoother pass backward updates from last '
     'to first, a forward-backward sweep one after the other, and the sequential sweep all three per step. The iteration '
     'driver performs the requested number of sweeps and after each, when the truth is known, stores exactly one record '
     'in the requested table with the iteration number, that iteration\'s RMSE and NLL and the experiment\'s settings, '
     'committed before the next iteration; the settings object passed in is kept.',
     ['schedules', 'histories', 'crash_points'], 'for all chain lengths, starting states, numbers of iterations, powers, '
     'dampings, and a crash between any two statements of the iteration driver',
     'the tests check final estimates; a skipped or reordered update converges to nearly the same values, and no test '
     'looks at the stored records', [IT, ND, DB], [('sweeps', IT), ('ep_iterations', IT)],
     'Sweeps over chains of uninterpreted systems compared belief by belief with the reference schedule; SQL statements are '
     'interpreted over an abstract store that tracks uncommitted records.')

prop('C19', 'Chain construction wires every step to its own time, measurement and neighbours',
     'A chain of N steps has one node per measurement, linked to its neighbours in order, each with its own measurement, '
     'the system\'s transition at its own time (i dt, or the time and input given for it) and measurement map, the '
     'estimator\'s power and damping, identity messages and an uninformative marginal; the first step carries the '
     'system\'s initial distribution. The result does not depend on whether estimator and system are attached at '
     'construction or later, in either order, and several chains do not interfere.',
     ['configurations', 'inputs'], 'for all chain lengths (including one), dimensions, ways of construction and '
     'measurement containers',
     'the tests build one chain in one way', [ND], [('build_nodes, node_estimator, node_system', ND)],
     'Construction is interpreted for lengths 1, 2, 3, 6, 130; each node\'s transition is compared as a function value '
     'number (uninterpreted in time and input).')

prop('C20', 'Simulation follows the model with independent noise of the stated moments',
     'A simulated path starts from the given state or from a draw of the initial distribution; each next state is the '
     'transition of the one before at its time plus process noise, and each measurement is that of its own state plus '
     'measurement noise. Noises are fresh, mutually independent draws with exactly the stated means and covariances '
     '(default mean zero, default covariance identity), and neither the given state nor earlier states are altered.',
     ['inputs', 'histories'], 'for all systems (also user-defined ones), lengths, start states and times, noise '
     'parameters',
     'tests of random paths can only check shapes or loose statistics', [DS], [('simulate', DS), ('GaussianNoise', DS)],
     'Residuals of the abstract path are affine in draw terms; their joint mean and covariance are computed and compared.')

prop('C21', 'Benchmark systems implement their published equations',
     'Transition and measurement maps of the growth model, constant-velocity and turning-target bearings tracking and '
     'Lorenz 96 (one Runge-Kutta step) equal their published equations, for single states and row-wise for batches, with '
     'the sampling time, sensors and forcing given; the turn model is continuous at turn rate zero. Their derivatives as '
     'used by the Taylor transform are those of the equations.',
     ['inputs', 'configurations'], 'for all states, times, sampling times, sensor sets, forcings and dimensions (Lorenz: 4, '
     '7, 40), and all batch shapes',
     'the tests evaluate a few states or none', ['Systems/UniformNonlinearGrowthModel.py', 'Systems/BearingsOnlyTracking.py',
                                                'Systems/BearingOnlyTrackingTurn.py', 'Systems/L96.py'],
     [('transition / measurement functions', 'Systems/')],
     'Each map is interpreted on symbolic states and compared with the reference equations; derivatives through the '
     'analysed Taylor transform.')

prop('C22', 'Benchmark systems carry the stated noise, dimensions and initial distribution',
     'Each benchmark system has the process and measurement noise covariances its parameters state (white-acceleration '
     'covariance over the sampling time for the tracking models), zero-mean noise, the stated initial distribution and '
     'dimensions; systems of one kind built with different parameters do not interfere. The Lorenz system starts at the '
     'stored or generated state of its own forcing and dimension and refuses a stored state of the wrong size.',
     ['configurations'], 'for all noise levels, sampling times, sensor sets, forcings and dimensions',
     'the tests construct the systems with defaults only', ['Systems/BearingsOnlyTracking.py',
                                                           'Systems/BearingOnlyTrackingTurn.py', 'Systems/L96.py',
                                                           'Systems/UniformNonlinearGrowthModel.py'],
     [('constructors', 'Systems/')],
     'Constructors are interpreted with symbolic parameters; covariances, sampled noise moments and initial states are '
     'compared with reference formulas; file effects are recorded.')

prop('C23', 'EP at power one is the Gaussian smoother; on linear systems both are exact',
     'One undamped forward-backward EP sweep at power one over a fresh chain gives the moments of the Gaussian smoother '
     'with the same moment matching (and its forward pass those of the filter). On linear-Gaussian systems EP and the '
     'smoother give the exact posterior, further sweeps keep it, and at any power and damping the exact messages are a '
     'fixed point of both sweeps.',
     ['inputs', 'histories', 'configurations'], 'for all systems and moment-matching rules (first part), all '
     'linear-Gaussian systems including time-varying ones, series, powers and dampings',
     'the tests compare numbers for one system with tolerances', [ND, IT, ES, KF, UT, TT, SM],
     [('node updates', ND), ('filter and smoother', KF)],
     'Two implementations interpreted over the same abstract system must produce equal value numbers; exact posterior by '
     'the information form of the joint Gaussian.')

prop('C24', 'What is stored in the experiment database reads back as it was stored',
     'A record stores each field in the column of its name in the table asked for; arrays, state lists and numbers read '
     'back with the values they had; simulated states and measurements are stored one row per step and seed. Storing a '
     'second record of the same configuration and iteration replaces the first, of another one adds a row; creating '
     'tables again loses nothing, and tables do not mix.',
     ['histories', 'inputs'], 'for all field values and array shapes, and all sequences of creation and insertion analysed',
     'no test writes to or reads from a database', [DB, EB, IB],
     [('tables and insert statements', DB), ('array adapters', DB)],
     'The SQL text each function issues is parsed and interpreted over an abstract store (collecting semantics), with '
     'adapters and converters taken from the analysed source.')

prop('C25', 'A sweep computes and records every configuration exactly once and resumes safely',
     'For every seed a sweep simulates once, stores the simulation, and records for every transform, power and damping '
     'the metrics of each iteration of EP on that data, under the right keys, all committed. Configurations whose final '
     'iteration is already stored are skipped and their records kept unless override is asked for, in which case they are '
     'computed and stored anew; partially stored ones are completed, records of others are untouched, and one numerical '
     'failure costs at most its own configuration. The command line runs the sweep that was asked for, and every import '
     'and result query fits the code base and its tables.',
     ['configurations', 'fault_sequences', 'crash_points', 'histories'], 'for all sets of seeds, transforms, powers and '
     'dampings, earlier contents of the database (also left by a crash), the override flag, and any single numerical failure',
     'no test runs a sweep; its value is in hours of computation that a test cannot repeat', [EX, EB, IT, DB,
                                                                                           'Experiments/DisplayResults.py'],
     [('all_sims / power_sweep loops and skip rule', EX), ('own table with quantities', EB)],
     'The sweep is interpreted over an abstract database with symbolic seeds data and uninterpreted system, from every '
     'listed earlier content, with every single fault partition; rows are compared with metrics obtained through the '
     'library itself.')

prop('C26', 'Component-wise metrics of the turning target use the right components',
     'Position error and likelihood are those of components 0 and 2 with their joint covariance, velocity of components 1 '
     'and 3, turn rate of component 4, averaged over time, returned as (RMSE, NLL) pairs in that order, both for EP '
     'marginals and for smoothed states.',
     ['inputs'], 'for all states, truths and series lengths', 'no test evaluates them', [EB, IB],
     [('node_metrics', EB), ('componentwise_metrics', IB)],
     'Interpreted on symbolic five-dimensional states and compared with metrics of the sub-vectors.')

prop('C27', 'Runs are reproducible: seeding the global generator fixes every random result',
     'After seeding numpy\'s global generator, simulations, noise, state samples and Monte Carlo transforms give the same '
     'values again whatever was done before, on any instance; without reseeding they are fresh, and simulating never '
     'reseeds. EP, filters, smoothers and the deterministic transforms use no random numbers and give the same result '
     'for the same input whatever was run before.',
     ['histories', 'inputs'], 'for all seeds, systems, lengths and interleavings with other work',
     'a test sees one history; hidden state or a private generator shows only in others', [DS, SM, MC, UT, TT, ND, KF],
     [('np.random global generator only', DS)],
     'Draws are terms keyed by seed and position of the stream; results of repeated runs must have equal value numbers, and '
     'the draw log of deterministic parts must be empty.')

prop('C32', 'Baseline scripts and Lorenz sweep record what they ran and survive interruption',
     'For each of the ten seeds (and each dimension of the Lorenz model) the smoother scripts simulate once, right after '
     'seeding, run the iterated smoother on exactly those measurements, and commit one record per configuration (and '
     'quantity of the turning target) with the metrics of that result against the simulated states, under its seed, '
     'dimension and number of iterations, in the table the results are read from. What was complete when the script was '
     'interrupted is kept, and running it again completes the rest and keeps the earlier records. The Lorenz EP sweep does '
     'the same per power and sweep of EP: whole forward-backward passes over nodes of the simulated series, with the '
     'noise covariances of the system, and the metrics recorded after each pass.',
     ['configurations', 'crash_points', 'histories'], 'for all simulated series and smoothing results, every seed and '
     'dimension of the scripts, and interruption between configurations',
     'no test runs the scripts; a run takes hours', ['Experiments/IEKS_Sweep_UNGM.py', IB, 'Experiments/IEKS_Sweep_L96.py',
                                                     'Experiments/EP_Sweep_L96.py'],
     [('main loop', 'Experiments/IEKS_Sweep_UNGM.py'), ('main loop', IB), ('main loop', 'Experiments/IEKS_Sweep_L96.py'),
      ('module-level loop', 'Experiments/EP_Sweep_L96.py')],
     'The scripts are interpreted over an abstract database with the systems, smoothers and nodes of the library replaced '
     'by uninterpreted ones; recorded terms must equal the metrics of the uninterpreted results of the same configuration. '
     'The Lorenz EP sweep is analysed up to an interruption after some simulations.')

prop('C33', 'Plots draw the marginals: means and 95% bands at the right steps',
     'plot_gaussian_node draws one line of each mean component over steps 1..N, the ground truth over the same steps when '
     'given, and one band of the first component from mean - 1.96 sd to mean + 1.96 sd; plot_gaussian draws that band over '
     'steps 0..N-1; plot_1d_data draws the mean of the series per step over 1..T and, with more than one series, the band '
     'of one standard deviation around it. They draw on the axes given, else on new ones, return the axes, and leave the '
     'states and data as they were.',
     ['inputs', 'configurations'], 'for all states, data, lengths and dimensions, with and without axes',
     'no test draws anything', ['Utils/Plot_Helper.py'], [('plot_gaussian_node', 'Utils/Plot_Helper.py'),
                                                         ('plot_1d_data', 'Utils/Plot_Helper.py')],
     'Interpreted on symbolic states with a recording model of the axes; drawn limits must equal the reference terms.')

prop('C34', 'The result display shows mean and deviation over seeds of the right records',
     'In each experiment displayed, the smoother line shows EP with power 1 and damping 1 after its first iteration and '
     'every EP line the last iteration with the power it names, both for the transform, quantity and dimension of its '
     'heading: mean and standard deviation over the seeds of RMSE, then of NLL. The lines of the iterated smoother do the '
     'same over its ten seeds. The display only reads the databases.',
     ['inputs', 'configurations'], 'for all recorded metrics', 'no test runs the display',
     ['Experiments/DisplayResults.py'], [('queries and prints', 'Experiments/DisplayResults.py')],
     'The script is interpreted over abstract databases with symbolic metrics for more settings than are shown; printed '
     'terms must equal the statistics of the records selected by the line and its heading.')

na('C28', 'EP iterations converge and do not lose accuracy on nonlinear systems',
   'On the nonlinear benchmark systems repeated EP sweeps converge, and the converged estimate is at least as accurate '
   '(RMSE, NLL) as the Gaussian smoother.', ['inputs', 'configurations'],
   'for all simulated series, transforms, powers and dampings', 'a few seeds cannot establish it', [ND, IT],
   [('ep_iterations', IT)],
   'Convergence and accuracy of EP are properties of runtime quantities (the simulated data); not even a mathematical '
   'guarantee exists (undamped EP may diverge), so no sound static argument is in reach.')
na('C29', 'Rounding never costs positive definiteness',
   'In floating point every accepted marginal has a numerically symmetric positive definite covariance, for any length '
   'of series and conditioning.', ['inputs', 'histories'], 'for all inputs in floating point',
   'tests sample well-conditioned inputs', [SM, LA, ND], [('jittered factorisations', LA)],
   'The abstract domain is exact real arithmetic; bounding accumulated rounding of matrix inverses of unbounded '
   'conditioning is not possible statically. The refusal of non-positive-definite results itself is decided in C11.')
na('C30', 'Monte Carlo results approach the exact moments as samples grow',
   'The error of the Monte Carlo transform decreases with the square root of the number of samples.', ['inputs'],
   'for all maps with finite moments', 'a statistical limit', [MC], [('MonteCarloTransform', MC)],
   'A limit statement about random runtime quantities; unbiasedness and independence, which imply it, are decided in C07.')
na('C31', 'Sweep cost stays proportional to the number of configurations',
   'A sweep uses memory independent of the number of configurations and time proportional to it.', ['configurations'],
   'for all sweep sizes', 'tests run nothing of that size', [EX], [('loops', EX)],
   'Cost bounds depend on the run time of numerical library calls; no static cost analysis for Python is at hand and '
   'the user-visible guarantee is weak.')
