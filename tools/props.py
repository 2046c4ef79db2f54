#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (only the properties
that have a check module are emitted)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KFP = 'filterpy/kalman/kalman_filter.py'
EKF = 'filterpy/kalman/EKF.py'
UKF = 'filterpy/kalman/UKF.py'
CKF = 'filterpy/kalman/CubatureKalmanFilter.py'
SR = 'filterpy/kalman/square_root.py'
INF = 'filterpy/kalman/information_filter.py'
FAD = 'filterpy/kalman/fading_memory.py'
FLS = 'filterpy/kalman/fixed_lag_smoother.py'
IMM = 'filterpy/kalman/IMM.py'
MM = 'filterpy/kalman/mmae.py'
ENK = 'filterpy/kalman/ensemble_kalman_filter.py'
SP = 'filterpy/kalman/sigma_points.py'
UT = 'filterpy/kalman/unscented_transform.py'
HIN = 'filterpy/hinfinity/hinfinity_filter.py'
GH = 'filterpy/gh/gh_filter.py'
FM = 'filterpy/memory/fading_memory.py'
LS = 'filterpy/leastsq/least_squares.py'
DI = 'filterpy/common/discretization.py'
HE = 'filterpy/common/helpers.py'
KI = 'filterpy/common/kinematic.py'
ST = 'filterpy/stats/stats.py'
DB = 'filterpy/discrete_bayes/discrete_bayes.py'
MC = 'filterpy/monte_carlo/resampling.py'

P = []


def p(id, title, statement, over, quant, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, technique=technique, note=note))


p('K01', 'Linear Kalman filter equals the exact Gaussian posterior',
  'After any sequence of predictions and measurement updates, with matrices and noise levels '
  'fixed, changed on the filter or overridden for one call, the Kalman filter\'s state and '
  'covariance are the mean and covariance of the state given exactly the measurements processed '
  'so far. An override affects only that call, and the recorded prior, posterior and measurement '
  'are those of the latest predict and update. One- and two-dimensional states and every '
  'accepted form of a measurement (scalar, list, row, column) give the same result.',
  ['histories', 'inputs'], 'every linear Gaussian model and every predict/update/assignment '
  'history, state layout and measurement form',
  'The tests run a few constant-velocity models on one noise sequence each and mostly compare '
  'two code paths of the same class; overrides, layouts and mixed histories are not sampled.',
  [KFP, HE], [('predict', KFP + ':KalmanFilter.predict'), ('update', KFP + ':KalmanFilter.update'),
              ('measurement shaping', HE + ':reshape_z')],
  'property-based testing: random models and operation histories against a dense joint-Gaussian '
  'conditioning oracle',
  'Samples models up to 4 states (one in ten up to 7), histories up to ~10 operations; double precision tolerances.')

p('K02', 'Covariances stay valid and updates never add uncertainty',
  'However far apart the prior and measurement variances are and however long the run, every '
  'covariance the linear, extended, fading-memory and square-root filters hold stays finite, '
  'symmetric and positive semi-definite. An update never raises the variance of any combination '
  'of state components above its prior, and a prediction never drops it below the process noise. '
  'The factor the square-root filter holds is accurate to its own condition number, not to that of '
  'the covariance, which is the square of it.',
  ['histories', 'inputs'], 'predict/update histories including variance ratios up to 1e16',
  'The tests never drive a filter into ill-conditioning, where the algebraically equivalent short '
  'form of the update loses symmetry or definiteness.',
  [KFP, EKF, FAD, SR], [('Joseph form update', KFP + ':KalmanFilter.update'),
                        ('square-root update', SR + ':SquareRootKalmanFilter.update')],
  'property-based testing: invariant over generated ill-conditioned histories',
  'Sampled histories; thresholds scale with rounding of the prior.')

p('K03', 'No hidden side effects on inputs, snapshots or other objects',
  'Predicting, updating, smoothing, resampling or evaluating never alters the arrays a caller '
  'passed in or assigned (other than the estimate the call exists to change), nor estimates, '
  'priors, posteriors or measurements handed out earlier. Reading a statistic or predicting '
  'ahead without committing leaves the filter unchanged. Two filters, also ones sharing the same '
  'matrices, never influence each other, and editing the current estimate in place does not change '
  'recorded priors and posteriors. What a function returns belongs to its caller and depends on the '
  'values of its arguments: overwriting an earlier result, or editing an argument in place, leaves '
  'no trace in later calls. Filtering prints nothing and leaves random generators and '
  'numpy\'s settings alone (the ensemble filter draws its noise from numpy.random).',
  ['histories', 'inputs'], 'every operation history on every filter class and every pure function',
  'Aliasing only shows when a caller keeps an old array or shares one; no test keeps one.',
  [KFP, EKF, UKF, CKF, SR, INF, FAD, IMM, MM, ENK, HIN, GH, ST, HE],
  [('copy on predict/update', KFP + ':KalmanFilter.predict'), ('copies in banks', MM)],
  'property-based testing: bitwise before/after comparison over generated histories',
  'Every class and public pure function is sampled; internal work arrays are not inspected.')

p('K04', 'A missing measurement leaves every estimator unchanged',
  'Passing None as a measurement, anywhere in any history, leaves the state, covariance and '
  'model weights of every filter and filter bank exactly as they were, and everything computed '
  'afterwards is the same as if that call had not been made. The recorded posterior then equals '
  'the current estimate, and the measurement is recorded as missing.',
  ['histories', 'fault_sequences'], 'every placement of missing measurements in every history',
  'Tests pass None once or twice to one or two classes; most classes and positions are unsampled.',
  [KFP, EKF, UKF, CKF, SR, INF, FAD, IMM, MM, ENK, HIN],
  [('None branch', KFP + ':KalmanFilter.update'), ('None branch', UKF + ':UnscentedKalmanFilter.update')],
  'property-based testing: metamorphic comparison of histories with and without dropped data',
  'Bitwise comparison where the code path is the same, tight tolerance elsewhere.')

p('K05', 'Innovation, likelihood and distance describe the latest update',
  'After any update the reported innovation is the measurement minus the predicted measurement '
  'and the innovation covariance and gain are those used by that update. The log-likelihood is '
  'the Gaussian log-density of that innovation, the likelihood its exponential (never zero), and '
  'the Mahalanobis distance its normalised length, whichever of them is read, in any order, and '
  'however often.',
  ['histories', 'inputs'], 'every model, history and reading pattern of the statistics',
  'Values are cached lazily; tests read one statistic after one update, never a stale mix.',
  [KFP, EKF, UKF, CKF, SR, INF, FAD, ST],
  [('lazy caches', KFP + ':KalmanFilter.log_likelihood'), ('innovation', KFP + ':KalmanFilter.update')],
  'property-based testing: generated histories with generated reading patterns against an '
  'independent Gaussian density',
  'All classes that expose the statistics; far outliers included.')

p('K06', 'Batch filtering equals filtering step by step',
  'Processing a whole data set with a batch call gives, for every step, the same means and '
  'covariances, before and after the update, as calling predict and update one measurement at a '
  'time, in either order, with any per-step matrices, controls, time steps and missing '
  'measurements. The filter ends in the same state, and a supplied saver records every step.',
  ['inputs', 'histories', 'configurations'], 'every data set, per-step matrix list and order',
  'Tests run one constant model through the batch call; per-step lists, missing data, controls '
  'and the update-first order are barely sampled.',
  [KFP, UKF, FAD, HIN, GH], [('batch loop', KFP + ':KalmanFilter.batch_filter'),
                             ('function form', KFP + ':batch_filter'), ('unscented', UKF)],
  'property-based testing: differential batch versus stepwise execution',
  'Class, function, unscented, information and H-infinity batch calls.')

p('K07', 'Fixed-interval smoothing is the posterior given all data',
  'Smoothing the output of a filter run gives, for every step, the mean and covariance of that '
  'state given all measurements of the run, for any time-varying model. The last step is left '
  'as filtered, smoothed variances never exceed filtered ones, and the filter and the arrays '
  'passed in are not altered.',
  ['inputs', 'histories'], 'every linear model sequence and data set',
  'Tests smooth one constant model, where an off-by-one in the per-step matrices is invisible.',
  [KFP, UKF], [('backward pass', KFP + ':KalmanFilter.rts_smoother'), ('function', KFP + ':rts_smoother'),
               ('unscented', UKF + ':UnscentedKalmanFilter.rts_smoother')],
  'property-based testing: dense joint-Gaussian posterior as oracle',
  'Linear models (exact posterior known), class, function and unscented smoothers.')

p('K08', 'Several measurements: joint, sequential, any order, correlated',
  'Processing the parts of a measurement one after another, in any order, gives the same '
  'estimate as processing it at once when their noises are independent, and two independent '
  'measurements give the same estimate in either order or stacked. When measurement noise is '
  'correlated with the state error, the correlated update gives the exact conditional mean and '
  'covariance.',
  ['inputs', 'schedules'], 'every model, block split, processing order and cross-covariance',
  'Sequential updates are tested once on a fixed split; order and correlation are unsampled.',
  [KFP, SR, INF, EKF, FAD], [('sequential update', KFP + ':KalmanFilter.update_sequential'),
                             ('correlated update', KFP + ':KalmanFilter.update_correlated')],
  'property-based testing: metamorphic reordering plus direct conditioning oracle', 'Sampled.')

p('K09', 'Fixed-lag smoothing is the exact delayed posterior',
  'After each measurement every estimate kept by the fixed-lag smoother is the mean of that '
  'state given all measurements up to the configured number of steps later and no more. '
  'Recursive and batch operation agree, one estimate is kept per measurement, and lag zero is '
  'plain filtering.',
  ['inputs', 'histories'], 'every model, lag and data set',
  'The existing test only checks that the smoothed error is smaller than the filtered one.',
  [FLS], [('recursive', FLS + ':FixedLagSmoother.smooth'), ('batch', FLS + ':FixedLagSmoother.smooth_batch')],
  'property-based testing: dense joint-Gaussian posterior as oracle', 'Sampled.')

p('K10', 'Constant-gain operation follows the fixed-gain recursion',
  'Steady-state prediction and update change only the state, by the model and the stored gain, '
  'and leave covariance and gain as they are; they equal the full filter wherever the full '
  'filter\'s gain has converged. The full filter of an observable, controllable model converges '
  'to the solution of the algebraic Riccati equation.',
  ['inputs', 'histories'], 'every gain, model and history',
  'Tests compare one model after convergence with a loose tolerance.',
  [KFP], [('predict_steadystate', KFP), ('update_steadystate', KFP)],
  'property-based testing: explicit recursion and an independent Riccati solver as oracles', 'Sampled.')

p('K11', 'Fading-memory Kalman filter is a Kalman filter that forgets',
  'The fading-memory filter, and the Kalman filter and prediction function given a fading factor, '
  'equal a Kalman filter whose propagated covariance is multiplied by the square of the factor '
  'before process noise is added, for any history and also when the factor changes during the '
  'run. With factor one they equal the ordinary Kalman filter.',
  ['histories', 'inputs'], 'every factor, model and history', 'One model with factor 1.02 is tested '
  'against nothing but its own output.',
  [FAD, KFP], [('predict', FAD + ':FadingKalmanFilter.predict'), ('update', FAD + ':FadingKalmanFilter.update')],
  'property-based testing: reference recursion over generated histories', 'Sampled.')

p('K12', 'Function forms agree with the filter object and with scalars',
  'The stand-alone predict, update, steady-state, batch and smoothing functions return the same '
  'results as the filter object for every model, and plain-number arguments give the one-dimensional Kalman '
  'filter with plain numbers or arrays of the same values. Optional outputs (innovation, gain, '
  'innovation covariance, log-likelihood) are those of that update.',
  ['inputs'], 'every model, argument form (scalar, vector, matrix, column) and omitted optional '
  'argument', 'Tests call the functions with one or two shapes.',
  [KFP], [('update', KFP + ':update'), ('predict', KFP + ':predict'),
         ('smoother', KFP + ':rts_smoother')],
  'property-based testing: differential against the reference recursion and the object', 'Sampled.')

p('K13', 'All linear-capable filters agree',
  'On the same linear Gaussian problem the ordinary, square-root, information, extended, '
  'fading-memory (factor one), unscented and cubature filters produce the same state and '
  'covariance after every step of any predict/update history. The square-root factors and the '
  'information matrix are those of the covariance, and an information filter started without '
  'information uses everything it is told.',
  ['histories', 'inputs'], 'every linear model with regular noise and every history',
  'Tests compare pairs of classes on one model; controls, several measurements and changing '
  'matrices are not sampled.',
  [KFP, SR, INF, EKF, FAD, UKF, CKF], [('square root', SR), ('information form', INF)],
  'property-based testing: nine implementations run differentially with a reference recursion',
  'Sampled; well-conditioned models.')

p('K14', 'H-infinity filter follows its published recursion',
  'Every H-infinity update moves the state by the published minimax gain times the residual and '
  'advances the covariance by the published Riccati recursion for its bound, weights and noise '
  'matrices; prediction propagates the state only. With bound zero the covariances are those of '
  'the one-step Kalman predictor, and for a static state so are the estimates.',
  ['histories', 'inputs'], 'every model, bound for which the recursion exists, and history',
  'The test only runs and plots one case.',
  [HIN], [('update', HIN + ':HInfinityFilter.update'), ('predict', HIN + ':HInfinityFilter.predict')],
  'property-based testing: independent recursion and Kalman limit as oracles',
  'Sampled; bounds where the recursion exists.')

p('K15', 'What-if queries answer what the real step would give',
  'Asking a filter for its prediction, for the update a measurement would cause, for the residual '
  'or for the measurement a state would produce gives, at every point of any history and with the '
  'same controls and overrides, exactly what the corresponding real step then produces from the '
  'current estimate, in the same shapes, and changes nothing. The unscented filter\'s recomputed '
  'sigma points and cross variance are those of its current estimate, so that several '
  'measurements taken at one time can be processed one after another without loss.',
  ['histories', 'inputs'], 'every model, history, control, override and measurement form',
  'get_update and the sigma-point helpers are never called by a test, get_prediction once.',
  [KFP, FAD, SR, HIN, UKF], [('prediction', KFP + ':KalmanFilter.get_prediction'),
                             ('update', KFP + ':KalmanFilter.get_update'),
                             ('sigma points', UKF + ':UnscentedKalmanFilter.compute_process_sigmas')],
  'property-based testing: query against the following step and an independent recursion',
  'Sampled.')

p('N01', 'Extended Kalman filter linearises at the current estimate',
  'Each extended-Kalman update uses the Jacobian evaluated at the current prior, the residual '
  'between measurement and predicted measurement through the supplied residual function, and the '
  'noise in force for that call; extra arguments reach the callbacks in order. The result is the '
  'exact Gaussian update of the linearised problem, and combined predict-and-update equals the '
  'two calls in turn.',
  ['histories', 'inputs'], 'every nonlinear measurement function, argument tuple and history',
  'One radar tracking run with a loose bound is tested.',
  [EKF], [('update', EKF + ':ExtendedKalmanFilter.update'),
          ('predict_update', EKF + ':ExtendedKalmanFilter.predict_update')],
  'property-based testing: independent linearised update over generated nonlinear functions', 'Sampled.')

p('N02', 'Sigma points represent the given mean and covariance exactly',
  'For every scheme, parameter and dimension the sigma points\' weights sum to one (mean weights) '
  'and their weighted mean and covariance are exactly the given mean and covariance. The '
  'unscented transform returns the weighted mean and covariance of transformed points through '
  'the supplied mean and residual functions plus the given noise, so that affine functions are '
  'transformed exactly.',
  ['inputs', 'configurations'], 'every mean, covariance, dimension and scheme parameter',
  'Tests check two parameter sets in low dimension.',
  [SP, UT, CKF], [('Merwe', SP), ('Julier', SP), ('Simplex', SP), ('transform', UT)],
  'property-based testing: moment-matching invariants', 'Dimensions up to 6, sampled.')

p('N03', 'Unscented Kalman filter equals its textbook definition',
  'Each unscented prediction propagates the sigma points of the current estimate through the '
  'process model with the given time step and arguments; each update uses the predicted points, '
  'the measurement function and the noise in force for that call. State, covariance, predicted '
  'measurement, gain and cross-covariance are those of the textbook equations for nonlinear '
  'models and with user mean, residual and addition functions such as angles.',
  ['histories', 'inputs', 'configurations'], 'every nonlinear model, sigma scheme, callback set '
  'and alternating history', 'Tests check that estimates stay near the truth on a few tracks.',
  [UKF, SP, UT], [('predict', UKF), ('update', UKF)],
  'property-based testing: independent unscented filter as differential oracle', 'Sampled.')

p('N04', 'Cubature Kalman filter equals the third-degree cubature rule',
  'Cubature points are the mean plus and minus the scaled square-root columns of the covariance, '
  'equally weighted. Each prediction and update is the equally weighted mean and covariance of '
  'points propagated through the models with the noise in force for that call, for nonlinear '
  'models too.',
  ['histories', 'inputs'], 'every nonlinear model and alternating history',
  'One comparison with the UKF on a linear model is tested.',
  [CKF], [('predict', CKF), ('update', CKF)],
  'property-based testing: independent cubature filter as differential oracle', 'Sampled.')

p('N05', 'Ensemble filter updates its ensemble by the sample-covariance gain',
  'Each ensemble prediction passes every member through the model with process noise of the given '
  'covariance and each update moves every member by the gain formed from sample covariances '
  'times its own perturbed innovation, so that the state is the ensemble mean and, for linear '
  'models and large ensembles, mean and covariance approach the Kalman filter\'s. The reported '
  'covariance is the sample covariance after a prediction, reduced by the gain at an update.',
  ['histories', 'inputs'], 'every model, ensemble size and history, with the random draws '
  'controlled', 'Randomised; tests check plausibility of one run.',
  [ENK], [('predict', ENK), ('update', ENK)],
  'property-based testing: replayed noise draws against a reference ensemble filter', 'Sampled.')

p('M01', 'Interacting multiple models mix, weight and combine by Bayes rule',
  'Mode probabilities after an update are the prior mode probabilities from the transition matrix '
  'times each filter\'s measurement likelihood, normalised; each filter starts a prediction from '
  'the moment-matched mixture for its mode; the reported state and covariance are those of the '
  'probability-weighted mixture. Probabilities stay non-negative and sum to one, and a bank of '
  'identical filters behaves like one of them.',
  ['histories', 'inputs'], 'every bank, transition matrix and history',
  'One maneuvering-target run is compared with recorded numbers.',
  [IMM], [('mixing', IMM + ':IMMEstimator.predict'), ('probabilities', IMM + ':IMMEstimator.update')],
  'property-based testing: reference IMM over generated banks and histories', 'Sampled.')

p('M02', 'Multiple-model bank weights its filters by their likelihood',
  'After any history each filter of the bank is in the state it would have alone, its probability '
  'is proportional to its prior probability times the likelihoods of all its measurements, and '
  'the bank\'s state and covariance are mean and covariance of the probability-weighted mixture. '
  'Probabilities stay non-negative and sum to one.',
  ['histories', 'inputs'], 'every bank and history', 'One run with two filters is tested loosely.',
  [MM], [('update', MM + ':MMAEFilterBank.update')],
  'property-based testing: reference bank over generated histories', 'Sampled.')

p('G01', 'g-h and g-h-k filters follow their update equations',
  'Every update of the g-h family predicts by the kinematic model over the given time step and '
  'corrects position, velocity and acceleration by the gains in force for that call times the '
  'residual. Per-call gains and time steps do not persist, a zero residual leaves the prediction, '
  'and processing a batch gives the step-by-step estimates, for scalars and arrays alike.',
  ['histories', 'inputs'], 'every gain, time step, order and data sequence',
  'Tests use constant-velocity data with one set of gains.',
  [GH], [('updates', GH + ':GHFilter.update'), ('batch', GH + ':GHFilter.batch_filter')],
  'property-based testing: reference recursion over generated histories', 'Sampled.')

p('G02', 'Gain selection and noise-reduction figures are exact',
  'The gain designers return gains meeting their defining equations (critical damping poles and '
  'discounted error, Benedict-Bordner and optimal-smoothing relations, least-squares step gains), '
  'and the variance-reduction factors and bias of a filter equal the response of the filter '
  'itself to unit white noise and to constant jerk.',
  ['inputs'], 'every design parameter and every stable gain set',
  'Tests check one or two tabulated values.',
  [GH], [('design functions', GH), ('VRF', GH)],
  'property-based testing: impulse responses and characteristic polynomials measured from the '
  'filter itself', 'Sampled stable gains.')

p('G03', 'Recursive least squares equals the batch least-squares fit',
  'After any number of evenly spaced samples the least-squares filter\'s estimate and derivatives '
  'are those of the polynomial of its order fitted to all samples so far, evaluated at the latest '
  'sample. Its predicted errors are those of that fit for the given noise, and resetting starts '
  'afresh.',
  ['inputs', 'histories'], 'every sample sequence, order and time step',
  'Tests check a few noisy lines with loose bounds.',
  [LS], [('update', LS)],
  'property-based testing: differential against direct polynomial fits', 'Orders 0-2.')

p('G04', 'Fading-memory polynomial filter minimises the discounted error',
  'Once started from matching values, the fading-memory filter\'s estimates follow the gains '
  'of its order and fading factor, track polynomials of its order without error, and its '
  'reported variance reduction and bias equal those measured from its own impulse and ramp '
  'responses.',
  ['inputs', 'histories'], 'every factor, order, time step and sample sequence',
  'One comparison run per order.',
  [FM], [('update', FM)],
  'property-based testing: reference recursion and measured responses', 'Orders 0-2.')

p('D01', 'Discretisation is exact for every model and time step',
  'Discretised transition matrices are matrix exponentials and discretised noise is the integral '
  'of the propagated continuous noise; the closed-form white-noise matrices equal those of the '
  'general method for every dimension, block size, ordering, spectral density and time step. '
  'Composing two steps equals one step of the summed time.',
  ['inputs', 'configurations'], 'every system matrix, dimension, ordering and time step',
  'Tests compare a handful of tabulated matrices.',
  [DI], [('van Loan', DI), ('Q matrices', DI)],
  'property-based testing: independent quadrature oracle and semigroup relations', 'Sampled.')

p('D02', 'Kinematic models describe the motion they name',
  'The kinematic transition matrix of any order and time step moves a polynomial trajectory of '
  'that order exactly, in every dimension and state ordering, and steps compose. The kinematic '
  'filter factory returns a filter with those matrices, consistent shapes, and a measurement '
  'matrix selecting the position of each dimension.',
  ['inputs', 'configurations'], 'every order, dimension, ordering and time step',
  'Tests check a few shapes.', [KI], [('matrices', KI)],
  'property-based testing: polynomial motion oracle', 'Orders 0-5, sampled.')

p('S01', 'Gaussian algebra is exact',
  'Products and sums of Gaussians return the mean and variance of the normalised product density '
  'and of the sum of independent variables, commutatively and associatively, in one and several '
  'dimensions. Density, interval-probability and curve-drawing functions agree with the normal '
  'distribution and with each other for every mean and variance; Student-t draws follow that '
  'distribution.',
  ['inputs'], 'every pair of means and (co)variances', 'Tests check single values.',
  [ST], [('mul', ST + ':mul'), ('multivariate_multiply', ST)],
  'property-based testing: algebraic laws and independent densities', 'Sampled.')

p('S02', 'Multivariate densities equal the normal distribution',
  'Density, log-density and likelihood helpers return the multivariate normal density of the '
  'difference, for scalars, lists, row and column vectors, with scalar or matrix covariance and a '
  'defaulted mean, including singular covariances where that is allowed. They do not depend on '
  'the form in which the same vector is given, and invalid covariances are rejected.',
  ['inputs'], 'every vector form, dimension and covariance', 'Single values are tested.',
  [ST], [('logpdf', ST + ':logpdf'), ('likelihood', ST)],
  'property-based testing: independent density oracle', 'Sampled.')

p('S03', 'Geometry and distance statistics are exact',
  'The covariance ellipse is oriented along the principal axis with half-axes the square roots of '
  'the eigenvalues scaled by the deviations asked for; normalised estimation error and '
  'Mahalanobis distance are the quadratic forms they name for every input form; drawn ellipses and '
  'ellipsoids have that geometry; invalid inputs are rejected.',
  ['inputs'], 'every covariance and vector pair', 'Single values are tested.',
  [ST], [('ellipse', ST + ':covariance_ellipse'), ('NEES', ST), ('mahalanobis', ST)],
  'property-based testing: eigen-decomposition oracle', 'Sampled.')

p('B01', 'Discrete Bayes filter is Bayes rule on a grid',
  'Updating multiplies prior by likelihood and normalises; predicting convolves the belief with '
  'the motion kernel, shifted by the offset, wrapping around or filling from outside as asked. '
  'Beliefs stay non-negative, wrapped predictions conserve probability exactly, and a certain '
  'kernel only shifts.',
  ['inputs', 'histories'], 'every belief, kernel, offset and mode', 'A few short vectors are tested.',
  [DB], [('predict', DB), ('update', DB)],
  'property-based testing: direct-sum oracle', 'Sampled grids up to ~12 cells.')

p('R01', 'Resampling keeps particles in proportion to their weights',
  'Every resampling scheme returns as many valid indices as weights, never one of zero weight, '
  'for every weight vector and random draw including the extremes. Counts of a particle differ '
  'from its expected share by less than the scheme\'s bound (one for systematic, two for '
  'stratified, at least the integer part for residual), and averaged over draws equal it.',
  ['inputs', 'schedules'], 'every normalised weight vector and every random draw',
  'No tests; failures need particular weights, rounding or draws.',
  [MC], [('schemes', MC)],
  'property-based testing with the random source replaced by generated draws', 'Sampled.')

p('H01', 'The saver records every attribute of every step',
  'After any history a saver holds, for each save call, an independent copy of every attribute '
  'and property of the saved object at that moment, selects exactly the requested keys, and turns '
  'into arrays without changing values. Later changes of the object do not alter what was saved.',
  ['histories', 'inputs'], 'every object, history and save pattern', 'One object and short run '
  'tested.', [HE], [('save', HE + ':Saver.save')],
  'property-based testing: shadow record over generated histories', 'Sampled.')

p('H02', 'Wrong shapes are rejected, right shapes are accepted',
  'Sizes, matrices and values that do not fit the declared dimensions or valid ranges are rejected '
  'with an error where they are checked, and leave the estimate unchanged, while every consistent '
  'set of shapes passes the dimension check. Reshaping a measurement keeps all its values in order '
  'and yields the shape that fits the state, or raises.',
  ['inputs', 'configurations'], 'every dimension and shape', 'A few shapes are tested.',
  [HE, KFP], [('reshape_z', HE), ('test_matrix_dimensions', KFP), ('setters', INF)],
  'property-based testing: shape grammar with an acceptance oracle', 'Sampled.')

p('H03', 'Numeric helpers are exact',
  'Fourth-order Runge-Kutta integrates polynomials of degree up to three exactly and shows '
  'fourth-order error otherwise; diagonal inverses and outer-product sums return what they name; '
  'comparing filters reports exactly the attributes that differ, copying states makes independent '
  'copies, and printed forms show every value.',
  ['inputs'], 'every input of the helper functions', 'Most helpers have no test.',
  [HE], [('helpers', HE)], 'property-based testing: closed-form oracles', 'Sampled.')

p('H04', 'New estimators start from their documented defaults',
  'A newly built filter of any class and size has the documented shapes, a zero state, identity '
  'covariance and noise, no control, fading or cross-correlation, and recorded priors and '
  'posteriors equal to that state; the other estimators start from exactly the values given. '
  'Leaving a matrix at its default is the same as assigning that default. Objects share no memory '
  'with each other, nor do their attributes, and the inversion function in force is the one used.',
  ['inputs', 'histories'], 'every class, size, and subset of attributes left at the default',
  'Tests assign every matrix, in one size; nobody looks at a filter before its first step.',
  [KFP, EKF, UKF, CKF, SR, INF, FAD, FLS, HIN, ENK, IMM, MM, GH, FM, LS],
  [('constructors', KFP + ':KalmanFilter.__init__'), ('inversion', KFP + ':KalmanFilter.update')],
  'property-based testing: initial-state oracle, memory-sharing checks and metamorphic histories with '
  'explicit and implicit defaults', 'Sampled sizes to 6 states; values the classes document or their '
  'users scale in place (P *= 10).')

p('H05', 'Copies of an estimator continue exactly and independently',
  'A deep copy or a pickle round trip of any estimator or bank, taken at any moment of any history, '
  'continues with the same data exactly as the original would have, and neither original nor copy '
  'is affected by what happens to the other.',
  ['histories'], 'every class, history and moment of copying',
  'No test copies an estimator in the middle of a run.',
  [KFP, EKF, UKF, CKF, SR, INF, FAD, FLS, HIN, ENK, IMM, MM, GH, FM, LS],
  [('state held in attributes', KFP + ':KalmanFilter')],
  'property-based testing: copied histories against fresh runs of the whole history, bit for bit',
  'Sampled.')

p('E01', 'Estimates do not depend on units or component order',
  'Rescaling the units of state components and measurements, reordering components, rotating '
  'coordinates or embedding a problem in a larger one with independent parts transforms every '
  'filter\'s estimates, gains and covariances accordingly and leaves likelihoods consistent.',
  ['inputs', 'histories'], 'every invertible change of state and measurement coordinates',
  'No test transforms a problem.', [KFP, SR, INF, EKF, FAD, UKF, CKF],
  [('filters', KFP)], 'property-based testing: metamorphic equivariance', 'Sampled.')

p('E02', 'Results do not depend on how the numbers are stored',
  'The same values handed over as integers, column-major, strided, reversed, offset, read-only or '
  'byte-swapped arrays, or as Python, NumPy or 0-d numbers, give every estimator, smoother, batch run '
  'and function the same results as contiguous float arrays do, and are left unchanged.',
  ['inputs', 'histories'], 'every array and number a caller hands over, in every storage',
  'Tests pass contiguous float arrays, apart from a few integer literals.',
  [KFP, UKF, EKF, SR, INF, FAD, CKF, HIN, ENK, IMM, MM, GH, FM, LS, ST, DI, MC],
  [('smoothers', KFP + ':rts_smoother'), ('resampling', MC)],
  'property-based testing: metamorphic (same numbers, other storage)', 'Sampled.')

p('E03', 'The future depends only on the current estimate and settings',
  'What an estimator does next is determined by its current estimate and the current values of its '
  'matrices and parameters, however it got there: a new object given the same values continues '
  'identically, and matrices may be assigned in any order, anew, or edited in place with the same '
  'effect, at any point of a run. The same goes for scalar parameters (time step, gains, fading and '
  'fitting factors) and for the motion and measurement functions, exchanged between any two steps.',
  ['histories', 'call sequences'], 'any history, hand-over at any point, settings replaced or edited in any order',
  'Tests configure a filter once, before its first step.',
  [KFP, UKF, EKF, SR, INF, FAD, CKF, HIN, ENK, IMM, MM, GH, FM],
  [('filters', KFP), ('cached inverse', INF), ('cached inverse', HIN)],
  'property-based testing: metamorphic (run against hand-over run)', 'Sampled.')

p('H06', 'Arguments left out mean their documented defaults; positions agree with names',
  'Calling any public constructor, method or function with an optional argument left out gives what '
  'spelling out its documented default gives, whichever other arguments are given, and passing '
  'arguments by position in the documented order gives what passing them by name gives.',
  ['inputs'], 'every public callable, any subset of its optional arguments, by name and by position',
  'Tests call each function in one or two of the ways it may be called.',
  [KFP, UKF, EKF, SR, INF, FAD, CKF, HIN, ENK, IMM, MM, GH, FM, LS, ST, DI],
  [('functions', DI), ('functions', ST), ('methods', KFP)],
  'property-based testing: metamorphic (same call, written differently)', 'Sampled.')

p('E04', 'A step that fails leaves the estimate as it was',
  'When an update or prediction of a single filter raises - a measurement of the wrong size (of two '
  'or more elements) or not numeric, a user function or inversion function that raises, a singular innovation covariance, '
  'a noise matrix of the wrong size - the state and covariance stay as they were before the call, and '
  'the run continues from there as if the call had not been made.',
  ['fault schedules', 'histories'], 'any history with failing calls at any place; filter banks are excluded',
  'Tests make no call that fails.',
  [KFP, UKF, EKF, SR, INF, FAD, CKF, HIN, ENK, GH, FM, LS],
  [('update', KFP), ('update', UKF), ('update', LS)],
  'property-based testing: fault injection, metamorphic (run with failing calls against run without)', 'Sampled.')


def main():
    have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(HERE, 'checks', '*.py'))}
    out, checks = [], []
    for q in P:
        assert len(q['title']) <= 80, q['id']
        if q['id'] not in have:
            print('no check yet:', q['id'])
            continue
        out.append({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                    'quantifier': {'over': q['over'], 'text': q['quant']},
                    'why_tests_cant': q['why'],
                    'anchors': {'files': q['files'],
                                'mechanism': [{'name': a, 'where': b} for a, b in q['mech']],
                                'hook_needed': None}})
        checks.append({'property': q['id'],
                       'quick_cmd': 'python3 run.py %s --tier quick' % q['id'],
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % q['id'],
                       'evidence_file': 'evidence/%s.json' % q['id'],
                       'technique': q['technique'], 'level': 'exploration',
                       'level_note': q['note']})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for o in out:
            f.write(json.dumps(o) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python vlib/deps.py',
                   'checks': checks, 'not_applicable': [],
                   'notes': 'Generated by tools/props.py. No hooks in /repo are needed.'}, f, indent=1)
        f.write('\n')
    print(len(out), 'properties')


main()
