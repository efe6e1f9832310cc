#!/opt/venv/bin/python
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the one table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


LAW = ('Statistical oracle: a suspicious sample is only reported when an independent one, eight times larger, confirms it (false-alarm '
       'probability about 1e-12 per comparison). ')
R, CR, CS, GI, SM = ('fbs/samplers/resampling.py', 'fbs/samplers/csmc/resamplings.py', 'fbs/samplers/csmc/csmc.py', 'fbs/samplers/gibbs.py',
                     'fbs/samplers/smc.py')
LI, SI, DS, UT = 'fbs/sdes/linear.py', 'fbs/sdes/simulators.py', 'fbs/dsb/base.py', 'fbs/utils.py'
IM, DB, BY = 'fbs/data/images.py', 'fbs/data/base.py', 'fbs/data/bayesian.py'
NB, NM, NU, NN = 'fbs/nn/base.py', 'fbs/nn/models.py', 'fbs/nn/unet.py', 'fbs/nn/utils.py'

prop('C01', 'Resampling: exact offspring laws and never a particle of zero weight',
     'Stratified, systematic, multinomial and killing resampling return, for normalised weights, n indices in range whose offspring numbers '
     'follow exactly the law of the scheme; in particular particle i is copied n w_i times on average (stratified and systematic: within the '
     'deterministic bounds of the scheme; killing: each slot keeps its own particle with probability w_i / max w). '
     'A particle of weight zero is never selected, whatever the random draw and the rounding of the weight sum. '
     'The result is a function of the weights and the key only, the same eagerly, compiled or vectorised.',
     ['inputs'], 'all weight vectors (any number of particles, zeros, one-hot, tiny, sums off by rounding), schemes, precisions and keys',
     'The tests compare moments at a few weight vectors of one size; they cannot see zero weights, rounding of the sum, boundary uniforms or the joint law.',
     [R], [('sorted uniforms and cumulative weights', R + ':multinomial,_systematic_or_stratified'), ('self-retention and redraw', R + ':killing')],
     'runtime monitoring: exact enumerated laws as oracle over recorded calls, invariants on every call',
     LAW + 'Invariants (range, zero weights, offspring bounds) are checked on every one of millions of recorded calls.')
prop('C02', 'Conditional resampling pins the reference and follows the conditional law',
     'Conditional multinomial and killing resampling put the requested ancestor i in the requested slot j in every call, and the joint law of all '
     'other ancestors is that of the unconditional scheme (under a uniform rotation of the slots) given that event. '
     'If i is drawn from the weights and j uniformly, every particle m is again copied n w_m times on average, and no particle of zero weight is '
     'selected. With the conditioning switched off the scheme is the unconditional one, whatever i and j.',
     ['inputs'], 'all weight vectors, all (i, j) as static or traced integers, both schemes, precisions and keys',
     'The tests look at marginal frequencies for one weight vector with i = j = 0; the joint law and other (i, j) are not sampled.',
     [CR], [('pinning of the reference slot', CR + ':multinomial'), ('rotation and conditional self-retention', CR + ':killing')],
     'runtime monitoring: enumerated conditional law as oracle over recorded calls', LAW + 'Reference particle of positive weight assumed.')
prop('C03', 'Forced move is the Metropolised index move, with its true probability',
     'The forced move from index k proposes another index with probability proportional to its weight and accepts so that the weights are '
     'its stationary distribution: the transition probabilities are exactly those of the Metropolised independence move without repetition. '
     'The returned probability is the probability that the index changes, in [0, 1], for every weight vector including one-hot ones. '
     'Weight normalisation in linear and logarithmic form returns the exact normalised weights for any magnitude of log-weights, -inf included.',
     ['inputs'], 'all weight vectors (skewed, dominant, zero and one-hot entries) and all reference indices',
     'No test calls the forced move; it is only used inside one Gibbs test whose tolerance hides a wrong acceptance ratio.',
     [GI, CS], [('forced move', GI + ':force_move'), ('normalisation', CS + ':normalise')],
     'runtime monitoring: exact transition matrix as oracle over recorded moves', LAW)
prop('C04', 'Bootstrap filter: every step follows the model, the data and the resampling',
     'At step k the filter resamples with the normalised weights of the current particles, propagates each selected particle once with the '
     'transition from the time of that step and the previous measurement, and weights it with the current measurement and the previous particle and '
     'measurement it came from. The returned particles are exactly the selected ones, in the shapes documented for the whole path or the last '
     'time, and the returned negative log-likelihood is minus the sum of the logarithms of the average incremental weights. '
     'Shifting the log-density by a constant only shifts the likelihood, and weights given as densities or log-densities mean the same filter.',
     ['inputs', 'histories', 'configurations'], 'all numbers of steps and particles, state and measurement shapes, resamplers, flags, keyword arguments and keys',
     'The tests compare a filter mean with a Kalman filter at one setting and tolerance; they never look at a single step of the trace, at log=False or at extreme likelihoods.',
     [SM], [('filter recursion', SM + ':bootstrap_filter')],
     'runtime monitoring: online trace specification on particles that carry unique provenance tags',
     'Every callback and every returned particle of each run is checked against the trace specification; runs vary in shapes, resamplers, flags.')
prop('C05', 'Particle likelihood and filter estimates are unbiased',
     'For any model, the expectation over the random keys of the likelihood estimate of the bootstrap filter, and of the estimate times any function '
     'of the particles, is the exact unnormalised filtering integral, for every number of particles, at the last and at every earlier time. '
     'The same holds for the particle filter inside the particle MCMC kernel. With many particles a single run is close to the exact likelihood and '
     'filtering distribution.',
     ['inputs', 'configurations'], 'all models, measurements, particle numbers and unbiased resampling schemes',
     'The tests use one linear Gaussian model with many particles, where a biased estimate is within tolerance.',
     [SM], [('likelihood accumulation', SM + ':bootstrap_filter'), ('filter of the MCMC kernel', SM + ':pmcmc_filter_step')],
     'runtime monitoring: exact forward recursion on finite models as oracle of recorded estimates', LAW)
prop('C06', 'Backward smoother draws from the exact backward-simulation law',
     'Given filter particles, the backward smoother returns a trajectory made of particles of each time, drawn with exactly the backward-simulation '
     'probabilities: uniform over the last particles, then proportional to transition density times (when given) measurement density towards the '
     'next state drawn. The densities are evaluated at the particles of the time, the next state, the matching measurements and the matching time. '
     'On solvable models filter and smoother together reproduce the smoothing distribution as the number of particles grows.',
     ['inputs', 'histories'], 'all particle systems, densities, measurements and keys',
     'The single smoother test compares Monte Carlo means at one model; the joint law over trajectories is not looked at.',
     [SM, GI], [('backward simulation', SM + ':bootstrap_backward_smoother'), ('use in the Gibbs initialisation', GI + ':gibbs_init')],
     'runtime monitoring: enumerated trajectory law as oracle; trace of density evaluations', LAW)
prop('C07', 'Conditional SMC leaves the smoothing distribution invariant, for any N',
     'One step of the conditional SMC kernel, with either backward sampling or ancestral tracing, leaves the exact smoothing distribution of the '
     'model invariant for every number of particles and for fixed or random reference indices, and moves close to an independent draw when there '
     'are many particles. The reference trajectory survives unchanged in its slots, every other particle is a fresh transition from its recorded '
     'ancestor, and the returned trajectory is made of particles of the system at the returned indices. '
     'Weights are computed from the current and previous states, measurements and times of the very particles they belong to.',
     ['inputs', 'histories', 'configurations'], 'all models, measurements, particle numbers, reference indices, resampling schemes and backward modes',
     'The existing chain test targets a model where the measurement does not depend on the previous state, so missing terms of the backward weights are invisible.',
     [CS], [('forward pass', CS + ':forward_pass'), ('backward sampling', CS + ':backward_sampling_pass'), ('ancestral tracing', CS + ':backward_scanning_pass')],
     'runtime monitoring: exact invariance on finite models, genealogy trace specification', LAW)
prop('C08', 'Gibbs kernel leaves the conditional distribution invariant, for any N',
     'With the default final step, one iteration of the forward-backward Gibbs kernel leaves the exact joint conditional distribution of the state '
     'path given the observation invariant for every number of particles and both backward modes, and with many particles is close to the exact two-block Gibbs sampler. '
     'The iteration conditions on the observed part and on a forward noising of the current sample reversed in time, keeps the reference trajectory in '
     'the particle system, and returns the new sample, trajectory, indices and accepted flags mutually consistent. '
     'The initialisation returns a trajectory generated from the filter or smoother run on a forward noised observation.',
     ['inputs', 'histories', 'configurations'], 'all noising chains, observations, particle numbers, backward modes and keyword arguments',
     'The test runs one Gaussian model with loose tolerances; incoherent outputs, keyword handling and small particle numbers are not exercised.',
     [GI, CS], [('kernel', GI + ':gibbs_kernel'), ('initialisation', GI + ':gibbs_init'), ('forward noising of the observation', GI + ':bridge_sampler')],
     'runtime monitoring: exact invariance on finite chains, provenance-tagged trace specification', LAW + 'The explicit-final variant is an approximation and not claimed.')
prop('C09', 'Particle MCMC kernel targets the exact conditional law and reports its moves',
     'The particle MCMC kernel has, for any number of particles and any resampling scheme, exactly the conditional distribution of the terminal state '
     'given the observation as its target, with independent or preconditioned Crank-Nicolson path proposals. '
     'In every step either the whole proposal (particle, log-likelihood, path) or the whole old state is returned, the reported acceptance flag and '
     'probability say which and with what probability, min(1, ratio of the likelihood estimates). '
     'The Crank-Nicolson proposal is reversible with respect to the Gaussian path law it is given.',
     ['inputs', 'histories', 'configurations'], 'all models, observations, particle numbers, proposal step sizes and resampling schemes',
     'The test compares one posterior with loose tolerance at many particles, where a deterministically chosen particle still looks right.',
     [SM], [('filter with likelihood', SM + ':pmcmc_filter_step'), ('accept / reject', SM + ':pmcmc_kernel'), ('path proposal', SM + ':pcn_proposal')],
     'runtime monitoring: exact stationary law, unbiasedness and step consistency over recorded chains', LAW)
prop('C10', 'Twisted SMC is properly weighted whatever the twisting and the proposal',
     'The weighted particles of the twisted SMC sampler converge to the same exact conditional law whatever the proposal, the intermediate twisting '
     'functions and the resampling scheme, only the final twisting function defining the target. '
     'Each step resamples with the current weights, proposes once per particle and weights with transition times new twisting over '
     'proposal times old twisting of that very particle. With constant twisting and the transition as proposal it is plain simulation with uniform weights.',
     ['inputs', 'configurations'], 'all models, twisting functions, proposals, shapes, resamplers and keys',
     'The test has one Gaussian model and one twisting, with tolerances that hide a wrong ancestor or time in the weight.',
     [SM], [('weight recursion', SM + ':twisted_smc')],
     'runtime monitoring: trace specification of single runs and exact weighted laws on finite models', LAW + 'n = 20 000 particles; finite-n bias below 4e-4 assumed.')
prop('C11', 'Linear SDEs: discretisations, scores and simulations match drift and diffusion',
     'For every linear SDE offered (constant, linear-in-time, exponential, Ornstein-Uhlenbeck and matrix linear), the mean and variance of the exact discretisation '
     'between any two times are the solution of the moment equations of its own drift and dispersion, and compose over intermediate times. '
     'Conditional scores are the gradients of the resulting transition log-densities. '
     'Simulated paths and terminal values have exactly the joint Gaussian law implied by the discretisation at all requested times and state shapes.',
     ['inputs', 'configurations'], 'all SDE parameters, pairs of times, initial times, time grids, state shapes and path modes',
     'Tests check a few parameter sets at one pair of times and scalar states; the terminal-only mode, other initial times and array states are not covered.',
     [LI, UT], [('exact moments', LI + ':Stationary*LinearSDE'), ('simulation', LI + ':make_linear_sde,make_ou_sde'), ('matrix discretisation', UT + ':discretise_lti_sde')],
     'runtime monitoring: numerical integration of the observed coefficients as oracle; laws of recorded paths', LAW)
prop('C12', 'Simulators step through the given time grid, in any direction, exactly once',
     'The Euler-Maruyama simulator evaluates drift and dispersion at the left end of each substep of each interval of the grid in order, with the '
     'signed step and independent Gaussian increments of variance equal to the length of the step, for increasing and decreasing, uniform or non-uniform '
     'grids, any state shape and number of substeps. The reverse-time simulator integrates the reversed SDE with the coefficients at the '
     'reversed time, and the discrete simulator applies the transition of each time once. Requesting the terminal value returns the last state of the path.',
     ['inputs', 'configurations'], 'all time grids, directions, numbers of substeps, state shapes, coefficients and keys',
     'Tests use one increasing uniform grid and compare marginal moments.',
     [SI], [('Euler substeps', SI + ':euler_maruyama'), ('time reversal', SI + ':reverse_simulator'), ('discrete chain', SI + ':discrete_time_simulator')],
     'runtime monitoring: recorded coefficient evaluations and innovations against the specification of the scheme', LAW)
prop('C13', "Doob's bridge hits its target with the conditioned drift",
     "The bridge drift of every linear SDE is the unconditional drift plus the squared dispersion times the gradient of the log transition density to the target. "
     'The simulated bridge starts at its start, ends near its target (its last step is exact), and its path has the Gaussian law of the '
     'SDE conditioned on both ends up to the Euler discretisation error.',
     ['inputs', 'configurations'], 'all SDE parameters, endpoints, horizons, time grids, substeps and state shapes',
     'The test compares one bridge with a Gaussian conditional at single times, for one kind of SDE.',
     [LI, SI], [('bridge drift', LI + ':bridge_drift'), ('simulator', SI + ':doob_bridge_simulator')],
     'runtime monitoring: quadrature of observed coefficients and Gaussian conditioning as oracle', LAW)
prop('C14', 'Score-matching losses regress on the conditional score over the whole horizon',
     'Every loss that trains the backward SDE is the (suitably scaled) average squared distance between the network and its target computed from the '
     'noised states and times the network was fed, where states are exact forward noisings of the given data, each batch member with its own noise. '
     'Training times lie in the requested interval: uniformly distributed or the equidistant grid, as requested. '
     'The loss is zero exactly at the true target for point-mass data.',
     ['inputs', 'configurations'], 'all SDEs, horizons, batch and state shapes, loss kinds, time modes and keys',
     'A test trains one network on one SDE and looks at the loss going down; scale, times and pairing of noise are invisible there.',
     [LI], [('losses', LI + ':make_linear_sde_law_loss'), ('OU loss', LI + ':make_ou_score_matching_loss')],
     'runtime monitoring: the network is a recording monitor, the loss is recomputed from the record', LAW + 'The memory-saving variant is claimed for the score loss only.')
prop('C15', 'Closed-form Gaussian Schroedinger bridge solves the bridge problem',
     'For any two Gaussians and any reference diffusion the closed-form bridge has the two given marginals at times 0 and 1, and its drift '
     'transports its marginals (Fokker-Planck equation) and is the optimal, gradient-type control (Hamilton-Jacobi-Bellman equation). '
     'Exchanging the endpoints reverses the marginals in time, and simulating the drift from the first marginal reaches the second.',
     ['inputs'], 'all means, positive definite covariances, dimensions and diffusion coefficients',
     'The test simulates one two-dimensional problem with default diffusion.',
     [LI], [('closed form', LI + ':make_gaussian_bw_sb')],
     'runtime monitoring: PDE residuals and simulated laws of the returned functions', LAW + 'float64, positive definite covariances.')
prop('C16', 'IPF losses measure the distance to the time-reversed simulated dynamics',
     'The iterative-proportional-fitting losses simulate the given dynamics along the given times from the data and are the average squared distance between '
     'the trained drift, evaluated at the next state and reversed time, and the reversal target of that very transition. The Markov-chain '
     'and the SDE form, and the two SDE implementations, agree where they coincide. On Gaussian problems the minimiser is the exact time reversal.',
     ['inputs', 'configurations'], 'all drifts, time grids, batch and state shapes and keys',
     'The test trains one toy problem; a wrong time index or a stale state still lowers the loss.',
     [DS], [('discrete loss', DS + ':ipf_loss_disc'), ('continuous losses', DS + ':ipf_loss_cont,ipf_loss_cont_v')],
     'runtime monitoring: recorded drift evaluations, loss recomputed from the record', LAW)
prop('C17', 'Masks split images without loss: unpack and concat are exact inverses',
     'For inpainting and super-resolution, every generated mask partitions the pixels into observed and unobserved ones with the documented geometry (one rectangle '
     'of the requested size; one observed pixel per block), over all channels, and masks are drawn evenly from the possible ones. Splitting an image and merging the parts returns the image bit for bit, and '
     'merging then splitting returns the parts, for single images and any batch shape. The sampler of a restoration problem returns an image of the training data '
     'set and a mask that together give the parts.',
     ['inputs', 'configurations'], 'all tasks, sizes, image shapes, masks, batch shapes and keys',
     'The tests check one shape and a single key for each task.',
     [IM], [('masks', IM + ':ImageRestore.gen_mask'), ('split and merge', IM + ':ImageRestore.unpack,concat')],
     'runtime monitoring: partition and bitwise round-trip monitors over generated masks', 'Every mask and image of each run is checked pixel by pixel.')
prop('C18', 'Data sets: epochs enumerate every image once; corruption acts on its own image',
     'Enumerating a data set visits full batches of distinct elements that cover it (up to an incomplete last batch), in a uniformly random order given by the key, and training and test sets share no image. '
     'Corrupted pairs contain the clean image and a corruption of that same image by the requested task, with an own random corruption for each image of a batch, whose position or strength is drawn evenly from the documented range. '
     'Normalisation maps images to [0, 1] by the documented rule, without NaN for constant images, and reshaping loses nothing.',
     ['inputs', 'histories', 'configurations'], 'all data sets, batch sizes, epochs, corruption tasks, sizes and keys',
     'Tests do not load the image data sets at all and check enumeration for one size.',
     [DB, IM], [('epoch permutation', DB + ':Dataset.init_enumeration'), ('corruption', IM + ':Image.corrupt'), ('normalisation', IM + ':normalise')],
     'runtime monitoring: identity tags carried by every image, law of the shuffling', LAW + 'Synthetic images of the real sizes.')
prop('C19', 'Networks: flat parameters, batch independence, documented shapes, time embedding',
     'Every network the library constructs maps a batch of states and one or many times to outputs of the state shape, each output depending only on its own '
     'input and time: permuting or changing other batch members changes nothing, single and batched calls agree. '
     'The flat parameter vector and the tree of parameters determine the same function. The time embedding has the closed form documented for every dimension, '
     'and pixel shuffling is a bijection of pixels onto the finer grid. The layers do what they are named after: a weight-standardised convolution depends on neither the scale nor the offset of a filter, attention treats all pixels alike, and down- and upsampling halve and double the resolution.',
     ['inputs', 'configurations'], 'all constructors, shapes, parameters, batches and times',
     'Tests only cover two constructors at one shape with initial parameters, where biases are zero and outputs symmetric.',
     [NB, NM, NU, NN], [('flat forward pass', NB + ':make_st_nn'), ('models', NM), ('UNet', NU), ('pixel shuffle', NN + ':PixelShuffle')],
     'runtime monitoring: metamorphic monitors on forward passes at random parameters', 'float32 tolerances; MNISTAutoEncoder is documented as not working and excluded.')
prop('C20', 'Training kernel is one optimiser step; the moving average follows its schedule',
     'One call of the training kernel evaluates the loss at the current parameter with the given data and key, and returns exactly the parameter, '
     'state and loss of one step of the given optimiser, compiled or not. The averaged parameter is the current one before the start of the schedule, and afterwards '
     'is moved by the exponential average at every stride-th step and unchanged between. Iterating it learns a regression.',
     ['inputs', 'histories', 'configurations'], 'all optimisers, losses, schedules (start, stride, decay) and numbers of steps',
     'No test exercises the kernel or the moving average over a history of steps.',
     [NN], [('kernel', NN + ':make_optax_kernel')],
     'runtime monitoring: recorded loss evaluations and reference recursion over histories', 'Histories of hundreds of steps compared with a hand-written optimiser loop.')
prop('C21', 'Eager, compiled, vectorised and double-precision runs mean the same',
     'Every public sampling call gives the same result for the same key whether run eagerly, compiled, or vectorised over keys, up to rounding. '
     'Double-precision inputs give double-precision outputs, and nothing is rounded to single precision on the way.',
     ['inputs', 'configurations'], 'all public sampling calls, inputs and keys',
     'Tests run each function in one mode only.',
     [R, CR, CS, GI, SM, LI, SI, DS, BY, IM], [('pure functions of key and inputs', 'fbs/')],
     'runtime monitoring: differential execution of the same call under program transformations; inspection of the traced program for roundings', 'A mismatch counts when two of eight keys show it (rounding may flip one comparison).')
prop('C22', 'Gaussian divergences and matrix square roots obey their definitions',
     'The matrix square root of a symmetric positive semi-definite matrix squares to the matrix for every method, singular and ill-conditioned matrices included, without NaN. '
     'The Kullback-Leibler divergence and the squared Bures-Wasserstein distance of Gaussians equal their definitions, are non-negative, vanish only at equality, and have the invariances of '
     'the definitions (affine maps; symmetry and triangle inequality of the distance).',
     ['inputs'], 'all dimensions, means, covariances (rank-deficient for roots and distances) and methods',
     'One test compares at a single pair of matrices.',
     [UT], [('square root', UT + ':sqrtm'), ('divergences', UT + ':kl,bures_dist')],
     'runtime monitoring: definitions, metric axioms and invariances as oracle over random problems', 'Calls where the LAPACK build itself returns NaN (float32 eigh of a finite matrix) are skipped and counted.')
prop('C23', 'Crescent model: sampler, densities, score and posterior are one joint law',
     'The prior density, likelihood, score and posterior of the Crescent model belong to the same joint law as its sampler, for all parameters. '
     'Densities integrate to one, the score is the gradient of the joint log-density, and the posterior is the normalised product on any two-dimensional mesh, '
     'non-square and non-uniform ones included.',
     ['inputs', 'configurations'], 'all model parameters, points, observations and meshes',
     'No test covers this model beyond the score at points.',
     [BY], [('model', BY + ':Crescent')],
     'runtime monitoring: quadrature of the observed densities against the law of the sampler', LAW)
prop('C24', 'Randomness: no key is used twice, results depend on the key only',
     'No public sampling call draws twice from the same random key, nor draws from a key that it also splits, so that all random variates inside a call and between calls with '
     'split keys are independent. Results are a deterministic function of key and inputs, and the global random state is neither read nor changed. '
     'A corrupted batch draws separately for each of its images.',
     ['inputs', 'histories'], 'all public sampling calls, inputs, keys and chains of calls',
     'Reused keys leave all marginals intact, so that no test of moments can see them.',
     [R, CR, CS, GI, SM, LI, SI, DS, BY, DB, IM], [('key splitting', 'fbs/')],
     'runtime monitoring: a recording random number generator plugged in below the code under test', 'Every draw and split of each run is recorded; draws removed by the compiler as unused are not observed.')
prop('C25', 'No NaN, division by zero or out-of-bounds access under extreme legal inputs',
     'As long as one particle has positive weight, no public sampling call computes a NaN, divides by zero or indexes out of bounds, for '
     'log-likelihoods of any scale and offset, extreme weights, particles of likelihood zero and the smallest legal sizes. '
     'Outputs are finite and training losses have finite gradients.',
     ['inputs', 'configurations'], 'all public sampling calls under stress profiles of likelihoods, weights and sizes',
     'Tests use well-scaled problems and do not look at intermediate values; out-of-bounds accesses are silently clamped.',
     [R, CR, CS, GI, SM, LI, SI, DS], [('log-domain normalisation', SM), ('clipped indices', R)],
     'runtime sanitizers: NaN, division and out-of-bounds checks compiled into every operation', 'Checks are compiled into every primitive of the real code with checkify.')

EX = 'experiments/'
prop('C26', 'Synthetic experiments: scripts condition on the model and data they report',
     'Each synthetic experiment (Gaussian process and Gaussian Schroedinger bridge; Gibbs, pMCMC, filter, twisted and score baselines) runs from its '
     'documented command line and saves samples that follow, up to Monte Carlo error and the bias inherent in the method, the exact posterior of the observation on which it conditions; '
     'the saved posterior mean and covariance are those of that observation. The transition, measurement, initial and proposal laws that a script hands to the library are mutually consistent '
     '(sampler and density agree) and are those of the time reversal of its noising process, so that the modelled chain ends in the joint law of state and observation. '
     'The table script reports the divergences of the saved samples by definition.',
     ['inputs', 'configurations'], 'all experiment scripts, noising processes, seeds, dimensions, numbers of particles and sampler options',
     'No test runs an experiment; each script has its own copy of the model, whose factors, signs and times nothing compares with the truth.',
     [EX + 'toy/gp_gibbs.py', EX + 'toy/gp_pmcmc.py', EX + 'toy/gp_filter.py', EX + 'toy/gp_twisted.py', EX + 'toy/gp_csgm.py', EX + 'sb/gibbs.py', EX + 'sb/filter.py', EX + 'tabulators/tabulate_toy.py'],
     [('model of each script', EX + 'toy/gp_gibbs.py:reverse_drift,transition_sampler,likelihood_logpdf'), ('bridge model', EX + 'sb/gibbs.py:reverse_drift')],
     'runtime monitoring: scripts run end to end with recorded library calls; exact Gaussian posterior and time reversal as oracle',
     'Biased-by-design baselines (filter) are judged with a tolerance; explicit_final and gp_kf.py (plots only) are not judged.')
prop('C27', 'Image experiments: observed pixels, model, histories and training are as stated',
     'Every image experiment (inpainting and super-resolution with filter, Gibbs, pMCMC, twisted and score-based samplers; bridge super-resolution) restores the test images determined by the seed '
     'alone, the same for every method and independent of where a run starts, and never an image that the training script trains on. Restored images keep every observed pixel unchanged, and what is saved is what the sampler returned. '
     'The model handed to the library is the Euler-Maruyama step of the time reversal under the requested trained parameters, with the mask of that image, samplers and densities agreeing. '
     'Each iteration of a chain continues from the previous one with a fresh key, and a chain leaves its arbitrary start. '
     'Training visits every training image once per epoch, averages the parameters over the whole training and saves both; bridge training alternates directions, each simulated with the latest parameters of the other.',
     ['inputs', 'histories', 'configurations'], 'all image experiment scripts, data sets, tasks, methods, noising processes, seeds and options',
     'No test runs an image experiment: they need downloaded data and trained networks.',
     [EX + 'imgs/inpainting.py', EX + 'imgs/supr.py', EX + 'imgs/inpainting_csgm.py', EX + 'imgs/supr_csgm.py', EX + 'imgs/inpainting_twisted.py', EX + 'imgs/supr_twisted.py',
      EX + 'imgs/train.py', EX + 'sb_imgs/train.py', EX + 'sb_imgs/supr.py'],
     [('model', EX + 'imgs/inpainting.py:reverse_drift,transition_sampler,likelihood_logpdf'), ('training loop', EX + 'imgs/train.py'), ('bridge iterations', EX + 'sb_imgs/train.py:sb_kernel')],
     'runtime monitoring: scripts run end to end on synthetic data with a closed-form stand-in network; recorded calls, histories and saved files as traces',
     'Small synthetic images and a stand-in network; what is made of the saved files afterwards is C28.')
prop('C28', 'Keys, data files, launchers, tables and figures report what was produced',
     'The Monte Carlo keys are a thousand pairwise distinct keys and the committed ones are those the script generates. The data-preparation scripts produce every image, in order, with rows, columns and colours in place, in [0, 1], train and test apart; '
     'the resized images are the linear reduction of the originals. Every launcher starts each Monte Carlo run of its range exactly once, under the settings it names; each command line is accepted by its script and means what the launcher says; '
     'all the methods of a comparison get the same observations, model and sizes, and the tested epoch is one that training saves. '
     'Every number in a table and every element of a figure (quality measures of images, divergences and their quantile bands, autocorrelations, traces, contours, panels of images) '
     'is the one its definition gives for the saved results: right file, run, method, image, orientation and axis. The integrity script counts the saved runs of each method and size.',
     ['inputs', 'configurations'], 'all saved results, data files and launcher ranges', 'No test runs a launcher, a data-preparation script or an evaluation script.',
     [EX + 'generate_rng_keys.py', EX + 'datasets/make_cifar10.py', EX + 'tabulators/tabulate_imgs.py', EX + 'tabulators/tabulate_toy.py', EX + 'tabulators/plot_autocorrs_toy.py',
      EX + 'tabulators/plot_autocorrs_imgs.py', EX + 'tabulators/plot_sb.py'],
     [('launchers', EX + 'bashes'), ('tables', EX + 'tabulators'), ('figures', EX + 'tabulators'), ('data preparation', EX + 'datasets')],
     'runtime monitoring: scripts run on synthetic results; recorded command lines, drawn figure elements and printed numbers as traces, definitions recomputed from the files as oracle',
     'Launchers run with stand-ins for python and sbatch; LPIPS compared with the same network called directly.')
prop('C29', 'Unknown options are refused: nothing else runs under their name',
     'Asking the library for a method, integrator, loss, process, task, upsampling or embedding dimension that it does not offer raises an error instead of silently doing something else, '
     'while every offered one is accepted. Running an experiment script with an unknown noising process, data set, method or start stops with an error status and saves no results '
     'under the unknown name.',
     ['inputs', 'configurations'], 'all option names that do not exist, of every selectable part of the library and of the experiment scripts',
     'No test passes an option that does not exist: a silent fallback changes no tested result.',
     [GI, SI, LI, IM, NU, NB, EX + 'toy/gp_gibbs.py', EX + 'imgs/inpainting.py', EX + 'imgs/supr.py', EX + 'sb_imgs/supr.py', EX + 'imgs/train.py', EX + 'sb/filter.py'],
     [('method of the initialisation', GI + ':gibbs_init'), ('process', LI + ':make_linear_sde'), ('loss', LI + ':make_linear_sde_law_loss'), ('scripts', EX + 'imgs')],
     'runtime monitoring: hostile option values; what comes back, exit statuses and files that appear as traces', 'Schedules other than cos and exp mean a constant rate and are not judged.')
prop('C30', 'Saved results are reproducible, and no command overwrites the results of another',
     'Running an experiment script again with the same command line saves the same arrays bit for bit, whatever else lies in the results folders. Commands that differ in the Monte Carlo run, '
     'the number of particles, the noising process, the method or one of its variants, the task, the kind of mask or the observation save their samples under different names, '
     'and under those that the tables and figures read; within a run nothing is saved over a different result. Runs of different ids are different runs.',
     ['inputs', 'configurations', 'histories'], 'all experiment scripts, pairs of command lines, and orders in which they are run',
     'No test runs an experiment script; a name that lacks a setting, or unseeded randomness, shows only when the results of several commands are compared.',
     [EX + 'toy/gp_gibbs.py', EX + 'toy/gp_pmcmc.py', EX + 'sb/gibbs.py', EX + 'sb/filter.py', EX + 'imgs/inpainting.py', EX + 'imgs/supr.py', EX + 'sb_imgs/supr.py', EX + 'imgs/train.py'],
     [('synthetic experiments', EX + 'toy'), ('Schroedinger bridges', EX + 'sb'), ('image experiments', EX + 'imgs')],
     'runtime monitoring: every save of every command is logged (path and digest) by a hook outside the repository; logs of pairs of commands and of repetitions are compared',
     'Small problems; a stand-in network replaces the trained one in the image experiments.')
prop('C31', 'Derivatives through the library are those of what it computes',
     'Automatic differentiation gives the derivative of the value: of every training loss (score matching, mean matching and score-of-transition losses of each process, with or without random times and memory saving; '
     'Schroedinger-bridge losses) with respect to the parameters of the network that is learnt; of every network with respect to each group of its parameters and to its input; of simulated paths and bridges '
     'with respect to their start (and end) at a fixed key; of transition moments, scores, bridge drifts, Gaussian distances and Schroedinger bridges with respect to their arguments.',
     ['inputs', 'configurations'], 'all points, directions and keys',
     'A gradient that is cut or altered changes no value: tests that compare values pass, while training silently optimises something else.',
     [LI, SI, DS, NM, NU, NB, UT], [('losses', LI + ':make_linear_sde_law_loss'), ('bridge losses', DS + ':ipf_loss_cont'), ('networks', NU + ':UNet'), ('simulators', SI + ':euler_maruyama')],
     'runtime monitoring: difference quotients of the real calls in double precision as oracle for the forward- and reverse-mode derivatives of the same calls',
     'Directions along which two step sizes disagree (kinks) are counted and not judged; layers that normalise in single precision are judged at 5 %.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'] or ['return values and callbacks of the public functions'], 'hook_needed': None}}) + '\n')
    man = {'version': 1, 'setup_cmd': './setup', 'checks': [
        {'property': p['id'], 'quick_cmd': f"./run {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough ./run {p['id']}",
         'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P],
        'not_applicable': [],
        'notes': 'No hooks in /repo: all monitors sit at the API boundary (callbacks, keys, returned values) or below it (random number generator, checkify).'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
