prop('C07', 'Particle filters: exact propagation and weighting for every history',
 'For every history of prediction, measurement and combined updates (with and without inputs and sensor parameters, models exchanged freely) a particle filter that does not resample moves every particle by exactly one draw of the proposal density conditioned on that particle\'s own old value and the current input, and multiplies its weight by the likelihood (times the ratio of system and proposal density in the importance-weighted filter), normalised; a pure prediction keeps all weights. A measurement that is impossible for every particle reports failure and leaves the predicted particles and weights as they were. The number of particles and the prior never change, a posterior object supplied by the user is used and not destroyed, the time step counts the predictions, filters sharing models do not influence each other, and after a reset the filter continues from the given prior.',
 ['histories', 'inputs', 'configurations'], 'all update sequences of depth 2-5 over 19 updates, 1..4 particles (to 100 for depth 1), vector and integer states, four priors, three ways of construction; all words of length <= 2 repeated to 40 updates; importance-weighted filter over 12 updates to depth 3-4; resets between 1..3 particles to depth 4 (5)',
 'tests run one particle filter scenario with an unscripted generator and compare with wide tolerances; a stale argument, a particle moved with its neighbour\'s state or a draw used twice vanish in sampling noise',
 ['filter/particlefilter.cpp', 'filter/particlefilter.h', 'filter/bootstrapfilter.cpp', 'filter/bootstrapfilter.h', 'filter/filter.cpp', 'model/systemmodel.cpp', 'model/measurementmodel.cpp', 'pdf/mcpdf.h', 'pdf/conditionalpdf.h'],
 [('ProposalStepInternal', 'filter/particlefilter.cpp'), ('UpdateWeightsInternal', 'filter/particlefilter.cpp'), ('BootstrapFilter::UpdateInternal', 'filter/bootstrapfilter.cpp')],
 ['ParticleFilter::PostGet', 'Filter::TimeStepGet', 'Filter::Update status'], SEQ, 'user-defined densities record every draw they make; weights compared to 1e-9')

prop('C08', 'Resampling happens exactly when due and preserves the weighted set',
 'With a fixed period k a particle filter resamples exactly at the predictions that start when the number of predictions made is a positive multiple of k; with a threshold it resamples exactly after the measurement updates that leave an effective sample size 1/sum(w^2) below the threshold; at no other moment do particles or weights change. Resampling keeps the number of particles, gives all of them equal weight, only ever keeps values of particles of positive weight, and over all answers of the random source their multiplicities follow the multinomial distribution of the weights. This holds for every history and for every answer of the random source.',
 ['histories', 'inputs'], 'all histories of depth 3-8 (12) over 2-10 updates for periods 1..7 and thresholds from below 1 to above N; words of length <= 3 repeated to 40 updates; 1..257 particles; all answer tuples of a grid for 1..3 particles',
 'the tests never look at when resampling happens; an off-by-one in the period or a wrong effective sample size leaves estimates plausible',
 ['filter/particlefilter.cpp', 'filter/bootstrapfilter.cpp', 'pdf/mcpdf.h'],
 [('StaticResampleStep / DynamicResampleStep', 'filter/particlefilter.cpp'), ('Resample', 'filter/particlefilter.cpp')],
 ['ParticleFilter::PostGet', 'Filter::TimeStepGet'], SEQ + '; ' + RNGT, 'default (multinomial) scheme only: the other scheme constants are unimplemented in the library')

prop('C09', 'Mixtures stay normalised combinations of exactly their components',
 'After any history of constructing, adding (with or without a weight), deleting, re-weighting one or all components, copying, cloning and assigning, a mixture reports exactly the components the history leaves, in order, with non-negative weights that sum to one and equal the ones the history defines (setting or adding one with weight w scales the others to 1-w, or shares 1-w equally when they had none; a component added without weight gets 0, the first gets 1). Its density and expected value are the weighted sums over those components and the most probable component is the first of maximal weight; weights that cannot be normalised are refused and change nothing. Copies are independent, the mixture owns copies of the components it was given, and every component object is released exactly once.',
 ['histories', 'inputs'], 'all operation sequences of depth 3-5 starting from 0..3 components over vector mixtures of user-defined, Gaussian and sample-based components and discrete mixtures; every size up to 64; all words of length <= 2 repeated to 60 operations; two interleaved mixtures',
 'tests perform one fixed sequence of additions and deletions; losing normalisation or aliasing needs particular sequences such as deleting the only weighted component or assigning',
 ['pdf/mixture.h', 'pdf/mixture.cpp', 'pdf/pdf.h'], [('WeightSet / WeightsSet / NormalizeWeights', 'pdf/mixture.h'), ('AddComponent / DeleteComponent', 'pdf/mixture.h')],
 ['Mixture::WeightsGet', 'Mixture::ComponentsGet', 'Mixture::ProbabilityGet', 'Mixture::ExpectedValueGet', 'Mixture::MostProbableComponentGet'], SEQ, 'weights compared to 1e-9; component objects are counted to detect leaks and double releases')

prop('C10', 'Mixture sampling: components in proportion, for every random answer',
 'Drawing from a mixture returns, for every answer of the uniform random source, a draw of one component of non-zero weight, and over all answers each component exactly in proportion to its current weight, for continuous and discrete mixtures. Drawing a list with the default or the ordered-uniform (Ripley) method yields exactly the requested number of samples, every one of them filled by a draw of a component, distributed as independent draws. This holds after every history of component and weight changes and for copies.',
 ['inputs', 'histories'], 'as C02 over 1..4 components with all weight compositions, extreme answers, all answer tuples for lists of 1..3, lists up to 1000, histories of 3-4 changes',
 'the test draws samples but never relates them to the weights, and the ordered method silently left samples unfilled',
 ['pdf/mixture.h'], [('cumulative weight search in SampleFrom', 'pdf/mixture.h')], ['Mixture::SampleFrom'], RNGT, 'as C02')

prop('C11', 'Mixture particle filters: each component exact, weights follow evidence',
 'For every history of updates a mixture particle filter treats each component as a particle filter of its own: every particle is moved by one draw conditioned on its own old value, its weight is multiplied by its likelihood (and importance ratio) and normalised within the component, and the component is resampled exactly when the common period or its own effective sample size says so. The weight of a component is multiplied by the component\'s likelihood (the sum of its weighted particle likelihoods) and the mixture weights are renormalised; a component that cannot explain the measurement keeps its particles and gets weight zero, and if no component of positive weight can, the update reports failure and keeps the mixture weights. The time step counts predictions independently of the number of components, the prior is never changed, a posterior supplied by the user is used and not destroyed, and after a reset the filter behaves as one started from the new prior.',
 ['histories', 'inputs', 'configurations'], 'nine component shapes (1..4 components of 1..3 particles; larger ones to 100 particles), three weight patterns, all update sequences of depth 1-6 over 5-19 updates, periods 1..4 and four thresholds, words of length <= 2 repeated to 30 updates, resets between all pairs of shapes, importance-weighted filter to depth 3-4',
 'the only test runs the mixture filter with one fixed scenario and wide tolerances; the wrong period, a mixed-up component or a lost evidence factor stay inside the noise',
 ['filter/mixtureParticleFilter.cpp', 'filter/mixtureParticleFilter.h', 'filter/mixtureBootstrapFilter.cpp', 'filter/mixtureBootstrapFilter.h', 'pdf/mixture.h', 'pdf/mcpdf.h'],
 [('ProposalStepInternal', 'filter/mixtureParticleFilter.cpp'), ('UpdateWeightsInternal', 'filter/mixtureParticleFilter.cpp'), ('StaticResampleStep / DynamicResampleStepOne', 'filter/mixtureParticleFilter.cpp')],
 ['MixtureParticleFilter::PostGet', 'Filter::TimeStepGet', 'Filter::Update status'], SEQ, 'as C07 and C08')

prop('C12', 'Kalman filters compute the exact Gaussian posterior for every history',
 'For every history of predictions, measurement updates and combined updates, over linear and non-linear models with and without input or sensor parameters and with measurement dimensions that change from call to call, the filter\'s posterior mean and covariance are those of the (extended) Kalman recursion on the current prior, models and arguments, with a symmetric covariance without negative variances. Preallocation, the order in which measurement dimensions first occur, models changed or exchanged between updates and other filters sharing the models make no difference; independent measurements may be processed one by one, in any order, or stacked. The prior object is never modified, asking for the normalised innovation changes nothing, and after a reset the filter behaves as a new one started from the given prior.',
 ['histories', 'inputs', 'configurations'], 'all update sequences of depth 2 over up to 40 updates (5 system and 11 measurement models) for 1..4 states and five prior shapes, depth 4-5 over 8 updates, single updates for 5..12 states, words of length <= 2 repeated to 25 updates, two interleaved filters, resets between 1..3 states, seven in-place model changes to depth 4',
 'the tests run a short fixed scenario and compare with loose tolerances; a stale buffer of another measurement dimension, a transposed gain or a cached Jacobian only show for particular successions of models',
 ['filter/kalmanfilter.cpp', 'filter/kalmanfilter.h', 'filter/extendedkalmanfilter.cpp', 'filter/extendedkalmanfilter.h', 'filter/filter.cpp', 'model/analyticsystemmodel_gaussianuncertainty.cpp', 'model/analyticmeasurementmodel_gaussianuncertainty.cpp', 'model/linearanalyticsystemmodel_gaussianuncertainty.cpp', 'model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp', 'pdf/linearanalyticconditionalgaussian.cpp'],
 [('CalculateMeasUpdate', 'filter/kalmanfilter.cpp'), ('SysUpdate / MeasUpdate', 'filter/extendedkalmanfilter.cpp'), ('AllocateMeasModelExt', 'filter/extendedkalmanfilter.cpp')],
 ['KalmanFilter::PostGet', 'ExtendedKalmanFilter::NisGet', 'Filter::Update status'], SEQ, 'long double reference recursion; compared to 1e-8 relative (plus 1e-10 of the largest covariance of the history)')

prop('C13', 'Iterated Kalman filter relinearises at each estimate and stops when due',
 'Every measurement update of the iterated extended Kalman filter equals the Gauss-Newton iteration on the current prior: each iteration evaluates prediction, Jacobian and noise at the last estimate, and mean and covariance come from the last iteration. Without an innovation check exactly the configured number of iterations is made; with one, iterating ends after the first iteration whose squared change of the estimate is below the minimum, and never exceeds the configured number. For linear measurement models the result is the Kalman update for any number of iterations; histories, changing measurement dimensions, resets and other filters sharing models and checks make no difference, and the prior is never modified.',
 ['histories', 'inputs', 'configurations'], '1..25 iterations, eight thresholds plus thresholds just above and below the change of every single iteration, all update sequences of depth 2-3 (4) for 1..4 states, single updates to 12 states, resets between 1..3 states, interleaved filters',
 'the test only creates one iterated filter with a linear model, for which every iteration rule gives the same answer',
 ['filter/iteratedextendedkalmanfilter.cpp', 'filter/iteratedextendedkalmanfilter.h', 'filter/innovationCheck.cpp', 'filter/innovationCheck.h', 'filter/kalmanfilter.cpp'],
 [('MeasUpdate', 'filter/iteratedextendedkalmanfilter.cpp'), ('check', 'filter/innovationCheck.cpp')], ['KalmanFilter::PostGet', 'InnovationCheck::check'], SEQ, 'as C12; executions in which the change of the estimate lies on the threshold up to rounding are not judged')

prop('C14', 'Square root Kalman filter equals the Kalman filter and its root the covariance',
 'For every history of predictions and measurement updates with implicit measurement models, the square root iterated extended Kalman filter has the posterior mean and covariance of the iterated extended Kalman recursion, for any number of states, measurements and iterations. Its reported square root S always satisfies S S\' = covariance, also initially, after a reset, after setting the prior, and after setting the square root itself. The prior is never modified and filters do not influence each other.',
 ['histories', 'inputs', 'configurations'], 'all update sequences of depth 2 over 31 updates for 1..3 states, 1..3 iterations and three priors, depth 3-4 over 8 updates, single updates to 10 states, three ways of resetting between 1..3 states',
 'no test runs this filter; with one state and one measurement all of its errors cancel',
 ['filter/SRiteratedextendedkalmanfilter.cpp', 'filter/SRiteratedextendedkalmanfilter.h', 'model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.cpp'],
 [('CalculateMatrix / CalculateCovariance', 'filter/SRiteratedextendedkalmanfilter.cpp'), ('SysUpdate', 'filter/SRiteratedextendedkalmanfilter.cpp')], ['SRIteratedExtendedKalmanFilter::PostGet', 'SRIteratedExtendedKalmanFilter::SRCovarianceGet'], SEQ, 'compared to 1e-7; measurement models that declare an identity noise Jacobian have symmetric noise roots')

prop('C15', 'EKF particle filter: each particle proposes from its own Kalman filter',
 'In every combined update of the particle filter with extended Kalman proposal, each particle is redrawn from the Gaussian that an extended Kalman filter started at that particle\'s value and its own covariance computes from the current models and arguments, the particle keeps that covariance, and its weight is multiplied by likelihood times system density over proposal density and normalised. Resampling happens exactly when the period or the effective sample size says so, keeps only particles of positive weight together with their own covariances, gives all of them equal weight and draws them in proportion to their weights for every answer of the random source. The number of particles and the prior never change, the time step counts the updates, and after a reset the filter behaves as one started from the new prior.',
 ['histories', 'inputs', 'configurations'], '1..3 states, 1..5 particles (to 60), all combinations of 4 system models, 8 measurement models and 2 values to depth 1-2, depth 3-5 over 6 updates for periods 1..3 and four thresholds, extreme answers of the random source, resets between 1..3 particles, interleaved filters',
 'the test runs one scenario with free random numbers and a wide tolerance; weights computed with another particle\'s covariance stay plausible',
 ['filter/EKparticlefilter.cpp', 'filter/EKparticlefilter.h', 'pdf/EKF_proposaldensity.cpp', 'pdf/filterproposaldensity.cpp', 'pdf/conditionalgaussian.cpp', 'filter/particlefilter.cpp'],
 [('ProposalStepInternal / UpdateWeightsInternal / Resample', 'filter/EKparticlefilter.cpp'), ('FilterStep', 'pdf/filterproposaldensity.cpp')], ['ParticleFilter::PostGet', 'Filter::TimeStepGet'], SEQ + '; ' + RNGT, 'updates with only one of the two models are outside the filter\'s domain (it asserts); executions whose likelihoods underflow are not judged')

prop('C16', 'RTS smoother gives every state its posterior given all measurements',
 'For every forward history, running the Rauch-Tung-Striebel smoother backwards over the filtered posteriors yields for each time step the mean and covariance of the state given all measurements: exactly the marginals of the joint Gaussian of all states for linear models, and the recursion linearised at the filtered state for non-linear ones. The covariance stays symmetric without negative variances. The prior and the filtered posteriors handed in are never modified, smoothers do not influence each other, and after a reset the smoother behaves as a new one.',
 ['histories', 'inputs'], 'all forward histories of 2-3 (4) steps over 5 system models with inputs and up to 6 measurement models or none, for 1..3 states (single steps to 10), 15-step runs of all words of length 2, resets between 1..3 states, all interleavings of two smoothers over 3 steps',
 'the test only compares the smoothed first state with the prior within a wide tolerance, which an unsmoothed state passes as well',
 ['smoother/rauchtungstriebel.cpp', 'smoother/rauchtungstriebel.h', 'smoother/backwardfilter.cpp', 'smoother/backwardfilter.h'],
 [('SysUpdate', 'smoother/rauchtungstriebel.cpp')], ['BackwardFilter::PostGet'], SEQ, 'joint Gaussian of the whole history conditioned at once, and a long double RTS recursion; compared to 1e-6')

prop('C17', 'Particle smoother: exact backward weights for every history',
 'For every history a backward step of the particle smoother yields exactly the filtered samples handed in, each with its filtered weight multiplied by the sum over the smoothed samples of (smoothed weight times transition density from this filtered sample, divided by the total predicted density of that smoothed sample), normalised; smoothed samples that no filtered sample can reach contribute nothing. The numbers of filtered and smoothed samples may differ from step to step. If nothing can be reached the update reports failure and keeps the posterior; the prior and the filtered densities are never modified, smoothers do not influence each other and after a reset the smoother behaves as a new one.',
 ['histories', 'inputs'], 'all histories of 1-3 (4) backward steps over 4 system models, 1..5 samples per step (to 100), four weight patterns including zero weights and duplicated values, vector and integer states, resets, interleaved smoothers, records of real forward filters',
 'the test never looks at the smoothed weights, and equal numbers of samples hide a transposed table',
 ['smoother/particlesmoother.cpp', 'smoother/particlesmoother.h', 'smoother/backwardfilter.cpp', 'pdf/mcpdf.h'],
 [('SysUpdate', 'smoother/particlesmoother.cpp')], ['BackwardFilter::PostGet', 'BackwardFilter::Update status'], SEQ, 'weights compared to 1e-9')

prop('C18', 'A Gaussian always describes its current mean and covariance',
 'At every point of every history of setting the mean or covariance, evaluating densities, drawing, assigning, copying and cloning, a Gaussian reports the mean and covariance last set on that object, and its density at every point is that of the normal distribution with exactly these parameters, independent of what was computed before and of what happens to other objects it was copied from or to. This holds for every dimension and for all ways of constructing the object. The density is symmetric about the mean, largest at the mean and integrates to one.',
 ['histories', 'inputs'], 'two objects constructed in five ways, all histories of depth 4-5 (6) over set mean / set covariance / density / assign / copy / clone / draw for 1..3 dimensions, single densities for 1..16 dimensions over five covariance shapes, grid integration in 1 and 2 dimensions',
 'the test sets and reads parameters once; a cached inverse or determinant that survives a parameter change or is shared between copies needs a particular order of calls',
 ['pdf/gaussian.cpp', 'pdf/gaussian.h', 'pdf/pdf.h'], [('ProbabilityGet with cached inverse and square root of determinant', 'pdf/gaussian.cpp'), ('CovarianceSet / ExpectedValueSet', 'pdf/gaussian.cpp')],
 ['Gaussian::ProbabilityGet', 'Gaussian::ExpectedValueGet', 'Gaussian::CovarianceGet'], SEQ, 'long double reference density, compared to 1e-9 relative')

prop('C19', 'Gaussian draws have exactly the current mean and covariance',
 'Drawing from a Gaussian, or from a conditional Gaussian at given arguments, maps the standard normal answers of the random source affinely to the sample: answers of zero give exactly the current (conditional) mean and the linear part is a square root of the current covariance, so that the draws have exactly that mean and covariance, for regular and singular covariances, every dimension, both supported methods and single draws as well as lists. A list holds exactly the requested number of independent draws, each using answers of its own. This holds after every history of parameter changes, densities, draws and copies.',
 ['inputs', 'histories'], 'unit-vector and general answers for dimensions 1..4 (to 16) over eight covariance shapes including zero, rank-one and zero-variance ones, lists of 0..3, all histories of depth 4 (5), conditional Gaussians with linear and non-linear means and their clones',
 'the tests draw samples without looking at their distribution; a transposed root or a draw around an old mean is invisible there',
 ['pdf/gaussian.cpp', 'pdf/conditionalgaussian.cpp', 'wrappers/matrix/matrix_wrapper.cpp'], [('SampleFrom (Cholesky of the covariance)', 'pdf/gaussian.cpp'), ('SampleFrom', 'pdf/conditionalgaussian.cpp'), ('cholesky_semidefinite', 'wrappers/matrix/matrix_wrapper.cpp')],
 ['Gaussian::SampleFrom', 'ConditionalGaussian::SampleFrom'], RNGT, 'linear part compared as L L\' with the covariance to 1e-9')

prop('C20', 'Conditional Gaussians and models answer for current matrices and arguments',
 'At every point of every history, each query of a linear conditional Gaussian or of a system or measurement model built on it (conditional mean, covariance, Jacobian with respect to each argument, density, simulated draw, predicted state or measurement) answers for the matrices and additive noise currently set and for exactly the arguments given or last set, whatever was asked or computed before. This holds for every number and size of arguments, for models sharing one density, models whose density is exchanged, copies and clones, and for discrete models, whose prediction and density are those of their conditional probability table. Models without density report that they have none, and a simulated draw maps the answers of the random source to the conditional distribution at the given state and input.',
 ['histories', 'inputs', 'configurations'], 'all shapes with 1..3 arguments of sizes 1..4 (sizes to 12), histories of depth 4 (5) over set matrix / set noise mean / set noise covariance / set argument / query, models with and without input to depth 3 (4), shared, exchanged and cloned densities, discrete models of up to 3x3x3 states',
 'the tests set one model once and read it back; a stale argument, a Jacobian of the wrong argument or a matrix kept by reference only shows after a change',
 ['pdf/linearanalyticconditionalgaussian.cpp', 'pdf/analyticconditionalgaussian.cpp', 'pdf/analyticconditionalgaussian_additivenoise.cpp', 'pdf/conditionalgaussian_additivenoise.cpp', 'pdf/conditionalgaussian.cpp', 'pdf/conditionalpdf.h', 'model/systemmodel.h', 'model/measurementmodel.h', 'model/linearanalyticsystemmodel_gaussianuncertainty.cpp', 'model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp', 'model/discretesystemmodel.cpp'],
 [('ExpectedValueGet / dfGet / MatrixSet', 'pdf/linearanalyticconditionalgaussian.cpp'), ('AdditiveNoiseMuSet / AdditiveNoiseSigmaSet', 'pdf/analyticconditionalgaussian_additivenoise.cpp'), ('Simulate / ProbabilityGet', 'model/systemmodel.h'), ('PredictionGet / df_dxGet', 'model/analyticmeasurementmodel_gaussianuncertainty.cpp')],
 ['LinearAnalyticConditionalGaussian::ExpectedValueGet', 'SystemModel::Simulate', 'SystemModel::ProbabilityGet', 'AnalyticSystemModelGaussianUncertainty::PredictionGet'], SEQ + '; ' + RNGT, 'matrices compared to 1e-13, densities to 1e-9')

prop('C21', 'Vector and matrix operations equal linear algebra for every shape',
 'Every operation of the vector and matrix types (constructors, assignment, element access, sums, differences, products with scalars, vectors and matrices in every combination, compound assignments, transposes, rows, columns, blocks, concatenation, comparison, resizing, conversion to symmetric matrices) returns exactly the result of 1-based linear algebra for every shape, including 1x1, single rows and columns and rectangular matrices. Operands are left unchanged unless assigned to, results share no storage with them, and operands may be the target itself. Both matrix libraries (boost and Eigen) give the same answers.',
 ['inputs', 'configurations', 'histories'], 'some 116 operations for every shape up to 6x6 (single) and pairs of operations for 4 (16) shapes and triples for 2, sizes to 40, all vectors and matrices over a few values for comparison, all parts of matrices up to 5x5, all resizings between sizes 0..4, symmetric element writes',
 'the test tries each operation on one or two sizes, mostly square; an exchanged dimension, an off-by-one at the last row or an aliasing result only shows for particular shapes',
 ['wrappers/matrix/matrix_BOOST.cpp', 'wrappers/matrix/vector_BOOST.cpp', 'wrappers/matrix/matrix_EIGEN.cpp', 'wrappers/matrix/vector_EIGEN.cpp', 'wrappers/matrix/matrix_wrapper.h', 'wrappers/matrix/vector_wrapper.h'],
 [('all members', 'wrappers/matrix/matrix_BOOST.cpp'), ('all members', 'wrappers/matrix/matrix_EIGEN.cpp'), ('all members', 'wrappers/matrix/vector_BOOST.cpp'), ('all members', 'wrappers/matrix/vector_EIGEN.cpp')], ['MatrixWrapper::Matrix', 'MatrixWrapper::SymmetricMatrix', 'MatrixWrapper::ColumnVector', 'MatrixWrapper::RowVector'], SEQ, 'known finding: Eigen symmetric matrices keep two independent triangles when written element by element; the contents of a vector after resize and SymmetricMatrix(int, RowVector) are not claimed')

prop('C22', 'Inverse, determinant, Cholesky root and SVD satisfy their definitions',
 'For every square matrix the determinant is that of the matrix, also when it is singular, and for every well-conditioned one the inverse times the matrix is the identity, for general and symmetric matrices of any size. For every positive semidefinite matrix of any rank the semidefinite Cholesky root is lower triangular with non-negative diagonal and multiplies with its transpose to the matrix, and for a matrix whose elimination meets a negative pivot failure is reported. For every matrix of any shape the singular value decomposition consists of orthonormal factors and non-negative singular values whose product is the matrix, and the pseudo-inverse satisfies the Moore-Penrose equations with singular values below the given threshold counted as zero; the matrix itself is never changed.',
 ['inputs'], 'all 2x2 matrices over -3..3, all 3x3 over -1..1, 3456 4x4 matrices with permuted and dropped columns, all symmetric matrices up to 3x3 over -2..2 (-3..3), all Gram matrices of small integer factors in five scales, generic matrices of every rank to 10x10, sizes to 20, SVD of all matrices up to 3x3 over three or two values and of every rank up to 6x6, all combinations of five singular values against four thresholds',
 'the test inverts and decomposes a handful of matrices; singular matrices, semidefinite ones and rectangular shapes take branches of their own',
 ['wrappers/matrix/matrix_wrapper.cpp', 'wrappers/matrix/matrix_BOOST.cpp', 'wrappers/matrix/matrix_EIGEN.cpp'],
 [('cholesky_semidefinite / SVD / pseudoinverse', 'wrappers/matrix/matrix_wrapper.cpp'), ('inverse / determinant', 'wrappers/matrix/matrix_BOOST.cpp'), ('inverse / determinant', 'wrappers/matrix/matrix_EIGEN.cpp')], ['Matrix_Wrapper::inverse', 'Matrix_Wrapper::determinant', 'SymmetricMatrix_Wrapper::cholesky_semidefinite', 'Matrix_Wrapper::SVD', 'Matrix_Wrapper::pseudoinverse'], SEQ, 'rank-deficient matrices with a pivot within a tenth of zero and singular values close to the threshold are not judged (rounding decides); tolerances scale with the condition number')

prop('C23', 'A Uniform density always describes its current box',
 'At every point of every history of setting, assigning, copying, cloning, drawing and evaluating, a uniform density reports the center and width last set on that object, and its density is one over the volume of that box at every point inside it, including the bounds, and zero at every point that is outside in at least one coordinate. Draws map the answers of the random source coordinate by coordinate linearly onto the current box, each coordinate and each draw using an answer of its own, a list holding exactly the requested number. This holds for every dimension and every way of construction; unsupported sampling methods report failure.',
 ['histories', 'inputs'], 'dimensions 1..8, 36 boxes, three ways of construction, all points of a grid around the box, all histories of depth 4 (6) over eight operations with two objects, lists of 0..3 draws',
 'the test evaluates one box at two points; a bound of another coordinate or an old height only shows for particular histories and dimensions',
 ['pdf/uniform.cpp', 'pdf/uniform.h', 'pdf/pdf.h'], [('ProbabilityGet / SampleFrom / UniformSet', 'pdf/uniform.cpp')], ['Uniform::ProbabilityGet', 'Uniform::SampleFrom', 'Uniform::CenterGet', 'Uniform::WidthGet'], SEQ + '; ' + RNGT, 'bounds are exactly representable; compared to 1e-12')

prop('C24', 'Samples, weighted samples and probabilities are independent values',
 'After every history of setting values and weights, copying, assigning, swapping and storing in containers, every sample and weighted sample holds exactly the value and weight last given to that object; assigning a plain sample to a weighted one sets weight one, assigning through the base class keeps the weight, and no object shares storage with another. This holds for vector, real, integer and arbitrary values, and samples written to a stream are read back. Probabilities multiply and divide like the numbers they hold and leave their operands alone.',
 ['histories', 'inputs'], 'three objects, all histories of depth 4 (5) over eleven operations for five value types, all dimensions 0..6, all triples over ten probabilities',
 'the test assigns and copies each once; a weight lost on one path of assignment only shows in a sequence',
 ['sample/sample.h', 'sample/sample.cpp', 'sample/weightedsample.h', 'bfl_constants.h'], [('operator= / copy constructors', 'sample/weightedsample.h'), ('operator= / copy constructor', 'sample/sample.h'), ('Probability', 'bfl_constants.h')], ['Sample::ValueGet', 'WeightedSample::WeightGet', 'Probability'], SEQ, 'exact equality')

prop('C25', 'Symbolic (GiNaC) models: exact values and derivatives of the given function',
 'At every point of every history, a density or model built from a symbolic function reports as mean the value of that function at the current state and input, as derivative its exact Jacobian with respect to the state, and as covariance the additive noise, or, for noise on some of the inputs, that noise propagated through the Jacobian with respect to exactly these inputs, in whatever order they are listed, with mean and Jacobians evaluated at the input shifted by the noise mean. Function and symbols are reported as given; densities, draws and extended Kalman filters using the models agree with these values. Copies, clones and models made from a density are independent of it and start with its noise and arguments.',
 ['inputs', 'histories', 'configurations'], '10 families of functions for 1..3 outputs, 1..3 states, 0..3 inputs and every ordered selection of noisy inputs, 3 (6) arguments each, histories of depth 4 (5) over nine operations on two objects, system and measurement models with three queries and exchanged noise, filters over 3 updates',
 'the test builds one model and compares nothing; permuted symbols, a wrong linearisation point or a lost argument need particular functions and orders',
 ['pdf/nonlinearanalyticconditionalgaussian_ginac.cpp', 'pdf/nonlinearanalyticconditionalgaussian_ginac.h', 'model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp', 'model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp', 'pdf/analyticconditionalgaussian_additivenoise.cpp'],
 [('ExpectedValueGet / CovarianceGet / dfGet', 'pdf/nonlinearanalyticconditionalgaussian_ginac.cpp'), ('PredictionGet / CovarianceGet / df_dxGet', 'model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp')], ['NonLinearAnalyticConditionalGaussian_Ginac::ExpectedValueGet', 'NonLinearAnalyticConditionalGaussian_Ginac::dfGet', 'NonLinearAnalyticConditionalGaussian_Ginac::CovarianceGet'], SEQ, 'reference: automatic differentiation of the same function over long double, compared to 1e-10; only inputs, not states, are taken as noisy parameters')

prop('C26', 'Random source: uniform and normal answers with the requested parameters',
 'For every sequence of calls and every output of the underlying engine, uniform answers lie in [0,1) respectively [min,max), answers with bounds are the linear image of those without, and normal answers are the standard ones multiplied by sigma and shifted by mu. Every answer is computed from engine output not used by any other call, and depends on nothing but that output and its own parameters. If the engine output is uniformly distributed, so are the uniform answers, and the normal ones follow the standard normal distribution.',
 ['inputs', 'histories'], 'all combinations of 14 extreme engine words in two or three positions with 25 pairs of parameters, all histories of 4 (5) calls over four calls and three words, distribution over 65536 and 524288 equidistributed engine outputs',
 'the test never looks at the distribution; a standard deviation taken for a variance or bounds exchanged stay plausible',
 ['wrappers/rng/rng.cpp', 'wrappers/rng/rng.h'], [('rnorm / runif', 'wrappers/rng/rng.cpp')], ['BFL::rnorm', 'BFL::runif'], 'exhaustive enumeration of engine outputs and call sequences: the real rng.cpp is compiled against an engine whose words the explorer chooses', 'distribution function of the normal answers compared to 0.01 plus the mass of engine outputs that need more than two words')
