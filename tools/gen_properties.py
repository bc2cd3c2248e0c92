"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay
reviewable)."""
import json, os
D = 'zhusuan/distributions/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         state=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': observe, 'hook_needed': hook}})


prop('C01', "log_prob and prob are the distribution's true log density and density",
     "For every distribution in zhusuan.distributions, every valid parameter value and every value in its "
     "support, log_prob returns the exact log density (log mass) of the documented distribution up to the "
     "rounding error of the parameter dtype, including for extreme parameters as long as the quantities the density is built from (such as the precision) are representable in the dtype, and prob "
     "returns its exponential. Where the library defines the density outside the support (FoldNormal below 0, "
     "Uniform outside [minval, maxval), Poisson and Binomial outside their counts) it is 0, i.e. log_prob is -inf.",
     ['inputs', 'configurations'],
     "all 19 distributions, all parameter values (moderate, tiny, huge), parameterisations (std or logstd, "
     "normalised or not), dtypes float16/32/64 and integer sample dtypes, and all values",
     "The tests compare log_prob at a handful of hand-picked float32 points per distribution; errors that only "
     "show in a tail, for a vector parameter, one dtype or one parameterisation are not sampled.",
     [D + 'univariate.py', D + 'multivariate.py', D + 'utils.py'],
     [('_log_prob/_prob of each distribution', D + 'univariate.py, ' + D + 'multivariate.py'),
      ('log_combination', D + 'utils.py')],
     ['Distribution.log_prob', 'Distribution.prob'])

prop('C02', "Samples follow the distribution's own density, independently",
     "Every sample drawn by a distribution lies in its support and is distributed according to the density the "
     "same distribution object reports, for every parameter value. Samples at different sample indices and "
     "different batch positions are mutually independent, each following the parameters of its own batch "
     "position.",
     ['inputs', 'configurations'],
     "all 18 distributions that can be sampled, all parameter values and batch shapes, n_samples given as None, "
     "int or tensor, reparameterised or not, every sample dtype",
     "The tests only check the shape and dtype of samples; no test looks at their law.",
     [D + 'univariate.py', D + 'multivariate.py', D + 'base.py'],
     [('_sample of each distribution', D + 'univariate.py, ' + D + 'multivariate.py'),
      ('open_interval_standard_uniform', D + 'utils.py')],
     ['Distribution.sample'])

prop('C03', "Sample and probability shapes and dtypes obey the documented contract",
     "sample() has shape ([n_samples] +) batch_shape + value_shape and the declared dtype, and log_prob/prob have "
     "shape (... + batch_shape) without the last group_ndims axes and the parameter dtype, for every combination "
     "of static, partially known and unknown shapes. The static shapes reported at graph construction never "
     "contradict the shapes seen at run time and are fully known whenever parameters and n_samples are fully "
     "known, and batch_shape/value_shape agree between their static and dynamic forms.",
     ['inputs', 'configurations'],
     "all distributions x parameter shapes (including broadcasting, size-1 and size-0 axes) x how much of each "
     "shape is statically known x n_samples None/int/tensor x group_ndims x given shapes",
     "The tests enumerate a few shape pairs per distribution, mostly either fully static or rank-only placeholders.",
     [D + 'base.py', D + 'univariate.py', D + 'multivariate.py', D + 'utils.py'],
     [('sample/log_prob/prob/batch_shape/value_shape', D + 'base.py'),
      ('explicit broadcasting', D + 'utils.py')],
     ['Distribution.sample', 'Distribution.log_prob', 'Distribution.prob', 'Distribution.batch_shape',
      'Distribution.get_batch_shape', 'Distribution.value_shape'])

prop('C04', "Batched evaluation equals element-wise evaluation; groups sum",
     "Evaluating a batched or broadcast distribution gives, at every batch and sample position, exactly what the "
     "unbatched distribution with that position's parameters gives for that position's value. With group_ndims=k "
     "the log density is the sum, and the density the product, of the last k batch axes of the ungrouped result.",
     ['inputs', 'configurations'],
     "all distributions, all broadcastable parameter and value shapes (values with extra leading axes, fewer axes, "
     "size-1 axes), all group_ndims given as int or tensor",
     "Tests of values use one or two broadcasting patterns; a transposed axis or mis-tiled parameter shows only for "
     "particular shape combinations.",
     [D + 'base.py', D + 'univariate.py', D + 'multivariate.py', D + 'utils.py'],
     [('group reduction', D + 'base.py'), ('explicit_broadcast, maybe_explicit_broadcast', D + 'utils.py'),
      ('flattening in Categorical/OnehotCategorical', D + 'univariate.py, ' + D + 'multivariate.py')],
     ['Distribution.log_prob', 'Distribution.prob'])

prop('C05', "Gradients flow through samples exactly when reparameterised",
     "If is_reparameterized is true, the derivative of a sample with respect to every parameter is the pathwise "
     "derivative of a map whose output has the sampled law, so that E[f(sample)] is differentiated correctly; if it "
     "is false, no gradient at all reaches any parameter through the sample. With use_path_derivative=True, "
     "log_prob passes gradients only through the given value and none through the parameters; with False, "
     "log_prob's gradients with respect to parameters and value are the true derivatives.",
     ['inputs', 'configurations'],
     "all distributions x is_reparameterized x use_path_derivative x each parameter x parameter values",
     "The tests check path derivatives for a few classes at one point and never check that the pathwise derivative "
     "is the right one or that non-reparameterised samples block gradients.",
     [D + 'base.py', D + 'univariate.py', D + 'multivariate.py'],
     [('stop_gradient in _sample', D + 'univariate.py, ' + D + 'multivariate.py'),
      ('path_param', D + 'base.py')],
     ['Distribution.sample', 'Distribution.log_prob', 'tf.gradients'])

prop('C06', "Invalid arguments are rejected, statically or at run time",
     "Parameters with mixed or unsupported dtypes, unsupported sample dtypes, non-broadcastable or too low-rank "
     "shapes, Cholesky factors of incompatible shape, fewer than two Dirichlet categories, non-scalar temperatures, "
     "non-positive n_experiments, non-scalar n_samples, both or neither of std/logstd, negative group_ndims and given "
     "values that cannot broadcast always raise, and so does sampling where no law is defined (Multinomial without "
     "n_experiments, UnnormalizedMultinomial): at construction when the problem is statically visible, otherwise when "
     "the graph is run. With check_numerics=True, parameters or values that make a logarithm, log-gamma, log "
     "determinant or precision in the log density NaN or infinite raise an error when log_prob is run instead of "
     "yielding NaN or inf, and valid arguments never raise.",
     ['inputs', 'configurations'],
     "all distributions x classes of invalid argument x static, partially known or unknown shapes",
     "The tests try one invalid example per argument, mostly the static one.",
     [D + 'base.py', D + 'univariate.py', D + 'multivariate.py', D + 'utils.py'],
     [('assert_* helpers', D + 'utils.py'), ('_check_input_shape', D + 'base.py'),
      ('check_numerics branches', D + 'univariate.py, ' + D + 'multivariate.py')],
     ['Distribution constructors', 'Distribution.log_prob', 'Distribution.sample'])

prop('C07', "A net's log joint is the sum of its nodes' conditional log probs",
     "At every point of any construction history, log_joint() of a BayesianNet equals the sum of the conditional "
     "log densities of exactly the stochastic nodes added so far, each evaluated at its current value (observation "
     "if observed, otherwise the single sample all its dependants use); a user-set MetaBayesianNet.log_joint "
     "replaces it. Node names are unique: adding a stochastic or deterministic node under an existing name raises "
     "and leaves the net unchanged, and get, indexing, cond_log_prob, outputs, local_log_prob and query return "
     "exactly the named nodes' values in the requested order.",
     ['histories', 'programs'],
     "all interleavings of adding stochastic/deterministic nodes of any kind, reading values, log joints and "
     "conditional log probs, and failed additions, with any subset of nodes observed",
     "Tests build a few fixed nets and query each once; cache staleness, order and name clashes need histories.",
     ['zhusuan/framework/bn.py', 'zhusuan/framework/meta_bn.py'],
     [('log joint cache and its invalidation', 'zhusuan/framework/bn.py stochastic/log_joint'),
      ('name checks', 'zhusuan/framework/bn.py')],
     ['BayesianNet public methods', 'values fetched by Session.run'],
     state=[('nodes', 'named nodes of the net', 'zhusuan/framework/bn.py')])

prop('C08', "observe() conditions exactly one model and never leaks",
     "MetaBayesianNet.observe(**obs) builds a fresh net in which exactly the nodes named in obs take the given "
     "values (and all dependants use them) and all others are sampled, whatever other observations are nested "
     "inside it, run before it, raised an error before it, or run in other threads at the same time. Variables are "
     "shared between observes exactly when reuse_variables is set, and observe never alters the model's arguments "
     "or earlier nets.",
     ['histories', 'schedules', 'programs', 'fault_sequences'],
     "all histories of observe calls, including nested models, builders that raise part-way, and any interleaving "
     "of threads building models in their own graphs",
     "Tests observe one model at a time in one thread and never raise inside a builder.",
     ['zhusuan/framework/meta_bn.py', 'zhusuan/framework/utils.py', 'zhusuan/framework/bn.py'],
     [('context stack', 'zhusuan/framework/utils.py Context'),
      ('_run_with_observations', 'zhusuan/framework/meta_bn.py'), ('make_template', 'zhusuan/framework/meta_bn.py')],
     ['MetaBayesianNet.observe', 'BayesianNet.nodes', 'tf.global_variables'],
     state=[('context stack', 'which observation is being applied', 'zhusuan/framework/utils.py')])

prop('C09', "All ways of creating a stochastic node define the same node",
     "For every distribution, the BayesianNet shortcut method (and its alias), BayesianNet.stochastic with the "
     "Distribution object, and the legacy node class create nodes with the same law: the same log density for every "
     "value, the same shapes, dtype, group_ndims, reparameterisation and path-derivative behaviour, and the same "
     "number of samples, for every combination of arguments.",
     ['inputs', 'configurations'],
     "all distributions x every constructor argument (each set to a non-default value) x three construction styles",
     "Tests check that each shortcut returns a node of the right class; argument forwarding is checked for few "
     "arguments.",
     ['zhusuan/framework/bn.py', 'zhusuan/legacy/framework/stochastic.py'],
     [('shortcut methods', 'zhusuan/framework/bn.py BayesianNet'),
      ('legacy wrappers', 'zhusuan/legacy/framework/stochastic.py')],
     ['StochasticTensor.dist', 'StochasticTensor.cond_log_p', 'StochasticTensor.tensor'])

prop('C10', "Stochastic nodes and objectives behave as ordinary tensors",
     "A StochasticTensor or variational objective used with any arithmetic, comparison, logical or indexing "
     "operator, passed as an operand to a TensorFlow operation, fetched from or fed to a session, gives exactly the "
     "result of using its value tensor in the same position, including operand order and whatever the other operand "
     "is (tensor, variable, node, NumPy array, number or list). Within one session run all uses of a node see one and "
     "the same value; Python truth value and iteration are refused and identity/hash semantics keep nodes usable as "
     "keys.",
     ['inputs', 'programs'],
     "all overloaded operators with the node on either side, operand types and values, random expression programs, "
     "fetch and feed structures",
     "Tests exercise each operator once on one value; operand order and consistency across uses in composed "
     "programs are not covered.",
     ['zhusuan/utils.py', 'zhusuan/framework/bn.py', 'zhusuan/variational/base.py'],
     [('TensorArithmeticMixin', 'zhusuan/utils.py'),
      ('tensor conversion and session registration', 'zhusuan/framework/bn.py, zhusuan/variational/base.py')],
     ['operators', 'tf.convert_to_tensor', 'Session.run'])

prop('C11', "Variational objectives and IS estimates have their defined values",
     "For every model, variational net and observations, the ELBO equals the mean over the sample axis of log "
     "joint minus variational log density, and the importance weighted objective and is_loglikelihood equal the log "
     "of the mean importance weight, computed stably for weights of any magnitude, all at the samples actually "
     "drawn. Consequently both equal the log evidence exactly when the variational net is the exact posterior, the "
     "importance weighted value is never below the ELBO at the same samples, and models given as functions or "
     "latent inputs given as (sample, log prob) pairs give the same values; a latent node of the model that is "
     "neither observed nor given a variational posterior is rejected.",
     ['inputs', 'programs', 'configurations'],
     "all models and variational nets, any number of latents and observations, axis None (ELBO only), int or list, any sample count, "
     "arbitrarily scaled log weights",
     "Tests use one Normal-Normal model at default settings with Monte Carlo tolerance.",
     ['zhusuan/variational/base.py', 'zhusuan/variational/exclusive_kl.py', 'zhusuan/variational/monte_carlo.py',
      'zhusuan/evaluation.py', 'zhusuan/utils.py'],
     [('objective terms', 'zhusuan/variational/base.py'), ('log_mean_exp', 'zhusuan/utils.py'),
      ('_objective', 'zhusuan/variational/exclusive_kl.py, zhusuan/variational/monte_carlo.py')],
     ['elbo', 'importance_weighted_objective', 'is_loglikelihood'])

prop('C12', "SGVB surrogates differentiate the objective pathwise",
     "For reparameterised latents, the gradient of the sgvb() surrogate cost of the ELBO and of the importance "
     "weighted objective is minus the gradient of the objective's value at the drawn noise, with respect to every "
     "model and variational parameter. Its expectation is therefore minus the gradient of the expected objective.",
     ['inputs', 'programs'],
     "all reparameterised latent structures, sample counts, model and variational parameters",
     "Tests compare one gradient on one Gaussian model by Monte Carlo.",
     ['zhusuan/variational/exclusive_kl.py', 'zhusuan/variational/monte_carlo.py', 'zhusuan/variational/base.py'],
     [('sgvb', 'zhusuan/variational/exclusive_kl.py, zhusuan/variational/monte_carlo.py')],
     ['EvidenceLowerBoundObjective.sgvb', 'ImportanceWeightedObjective.sgvb', 'tf.gradients'])

prop('C13', "REINFORCE is an unbiased score-function estimator with any baseline",
     "The expected gradient of the reinforce() surrogate equals minus the gradient of the expected ELBO for every "
     "discrete or non-reparameterised latent, with or without variance reduction and a custom baseline. The moving "
     "mean it subtracts is the decayed mean of the learning signals of earlier runs only, under every execution "
     "schedule, and the baseline cost is half the squared error of the baseline and trains nothing but the baseline.",
     ['inputs', 'schedules', 'histories', 'programs'],
     "all latent structures and baselines, all sequences of runs, all orders in which the runtime executes the ops",
     "The only tests disable variance reduction and compare with Monte Carlo tolerance; ordering of the moving mean "
     "update is schedule dependent.",
     ['zhusuan/variational/exclusive_kl.py'],
     [('moving mean and control dependencies', 'zhusuan/variational/exclusive_kl.py reinforce')],
     ['EvidenceLowerBoundObjective.reinforce', 'tf.gradients'],
     state=[('moving mean', 'decayed mean of past learning signals', 'zhusuan/variational/exclusive_kl.py')])

prop('C14', "VIMCO is an unbiased estimator with leave-one-out control variates",
     "For every number of samples K >= 2, sample axis (a non-negative index) and latent structure, the expected gradient of the vimco() "
     "surrogate equals minus the gradient of the expected importance weighted objective. Its learning signal for "
     "sample k is the objective minus the objective with sample k's log weight replaced by the mean of the others, "
     "and K < 2 is rejected.",
     ['inputs', 'programs', 'configurations'],
     "all K, axis positions and ranks of the log weights, static or dynamic sample counts, weights of any magnitude",
     "Tests use one axis, one rank and one K with Monte Carlo tolerance.",
     ['zhusuan/variational/monte_carlo.py'],
     [('vimco', 'zhusuan/variational/monte_carlo.py')],
     ['ImportanceWeightedObjective.vimco', 'tf.gradients'])

prop('C15', "klpq.importance weights score gradients by normalised weights",
     "The gradient of the importance() (alias rws()) surrogate with respect to variational parameters is minus the "
     "sum over samples of self-normalised importance weight times the score of that sample, with weights treated as "
     "constants, normalised along the sample axis only and computed stably for log weights of any magnitude; "
     "without an axis it is minus the score.",
     ['inputs', 'programs'],
     "all latent structures, axis positions, sample counts and weight magnitudes",
     "Tests compare one Gaussian case by Monte Carlo with a loose tolerance.",
     ['zhusuan/variational/inclusive_kl.py'],
     [('importance', 'zhusuan/variational/inclusive_kl.py')],
     ['InclusiveKLObjective.importance', 'InclusiveKLObjective.rws', 'tf.gradients'])

prop('C16', "Every HMC transition is a leapfrog proposal with Metropolis test",
     "In every iteration and for every chain independently, the proposal is the n_leapfrogs-step leapfrog "
     "trajectory of the Hamiltonian given by the log joint and the current mass from the reported initial momentum "
     "and the current step size; the reported Hamiltonians are those of the two ends of that trajectory and the "
     "reported acceptance rate is min(1, exp(H_old - H_new)) (0 when the new end is not finite); the stored sample "
     "becomes the proposal with that probability and otherwise stays put, for all latent variables of the chain "
     "together; and the reported log probabilities and samples are those of the states before and after.",
     ['inputs', 'histories', 'configurations', 'programs'],
     "all log joints (including divergent and non-finite ones), numbers of latents, chain shapes, data shapes, step "
     "sizes and leapfrog counts, and all iterations of all runs",
     "Tests look at the final histogram of one 1-D Gaussian.",
     ['zhusuan/hmc.py'],
     [('leapfrog, hamiltonian, acceptance, MH test', 'zhusuan/hmc.py')],
     ['HMC.sample', 'HMCInfo', 'latent Variables'],
     state=[('latent Variables', 'current state of all chains', 'caller')])

prop('C17', "HMC adaptation follows dual averaging and stops when switched off",
     "While adapt_step_size is true the step size follows the dual averaging recursion of Hoffman & Gelman with the "
     "given target, gamma, t0 and kappa driven by the mean acceptance rate over chains (restarted at the first "
     "iteration and at iteration mass_collect_iters, whose transitions use a step size found by repeated scaling with "
     "1.5); every other transition uses the step size reported by the iteration before. While it is false the "
     "reported step size stays constant at the averaged value (the configured one if never adapted). While adapt_mass "
     "is true the mass is, from iteration mass_collect_iters on, the reciprocal of the decayed moving variance of the "
     "visited states of all chains per dimension, and it is unit before that; while it is false the mass stays "
     "constant. Momenta are drawn from N(0, mass).",
     ['histories', 'configurations'],
     "all sequences of on/off values of the two adaptation flags, all parameters, all chains and latents",
     "Tests adapt once on one Gaussian and only look at final samples.",
     ['zhusuan/hmc.py'],
     [('StepsizeTuner', 'zhusuan/hmc.py'), ('ExponentialWeightedMovingVariance', 'zhusuan/hmc.py')],
     ['HMCInfo.updated_step_size', 'HMCInfo.init_momentum', 'HMCInfo.orig_hamiltonian'],
     state=[('step size, mass', 'adapted sampler parameters', 'zhusuan/hmc.py')])

prop('C18', "HMC leaves its target distribution invariant",
     "With adaptation off, chains whose states are independent draws from the normalised target remain exactly "
     "distributed according to the target after any number of iterations, for every step size, number of leapfrog "
     "steps, number of latent variables and chain layout; chains are independent of each other.",
     ['inputs', 'histories', 'configurations'],
     "all targets, step sizes (including coarse ones with many rejections), leapfrog counts, latent structures",
     "The test compares the histogram of one chain set on one Gaussian to a loose bound.",
     ['zhusuan/hmc.py'],
     [('Metropolis correction', 'zhusuan/hmc.py'), ('momentum refresh', 'zhusuan/hmc.py')],
     ['HMC.sample', 'latent Variables'])

prop('C19', "SGMCMC updates follow the published update equations",
     "Each run of the sampling op of SGLD, PSGLD, SGHMC and SGNHT moves every latent variable by the documented "
     "update: the given drift from the gradient of the log joint (preconditioned for PSGLD, with momentum and "
     "friction for SGHMC/SGNHT, first or second order) plus independent Gaussian noise of the documented variance. "
     "The reported q, mean_k and alpha are the values after the update, the friction of SGNHT follows its "
     "thermostat equation, and learning rates fed per run take effect in that run.",
     ['inputs', 'histories', 'configurations'],
     "all log joints, latents and shapes, hyper-parameters (constant or fed), integrator orders, scalar or vector "
     "friction, and all iterations",
     "Tests compare the final histogram of a 1-D toy problem with a loose bound.",
     ['zhusuan/sgmcmc.py'],
     [('_update of each sampler', 'zhusuan/sgmcmc.py')],
     ['sample_op', 'sgmcmc_info', 'latent Variables'],
     state=[('momentum, friction, preconditioner', 'auxiliary sampler state', 'zhusuan/sgmcmc.py')])

prop('C20', "SGMCMC steps are atomic and resampling is periodic in any schedule",
     "Within one run of the sampling op all latent variables, momenta and gradients are computed from the state "
     "before the run and only then replaced, whatever order or delay the runtime executes operations with. Momentum "
     "is resampled from N(0, learning rate) exactly once every n_iter_resample_v runs and never when that is None "
     "or 0.",
     ['schedules', 'histories', 'configurations'],
     "all interleavings of the ops inside a run (injected delays, 1..n inter-op threads), all numbers of latents, "
     "all n_iter_resample_v",
     "Tests use one latent and never control the schedule; races only show for particular op orders.",
     ['zhusuan/sgmcmc.py'],
     [('control dependencies between updates and reads', 'zhusuan/sgmcmc.py'),
      ('iteration counter', 'zhusuan/sgmcmc.py')],
     ['sample_op', 'latent Variables'],
     state=[('iteration counter', 'number of runs so far', 'zhusuan/sgmcmc.py')])

prop('C21', "Flow log-densities satisfy the change-of-variables formula",
     "For every planar and inverse-autoregressive flow, any number of layers and any parameter values (planar: w'u not "
     "so extreme that float32 cannot represent the invertibility correction), the returned "
     "log density is the input log density minus the log absolute Jacobian determinant of the returned sample with "
     "respect to the input sample, at every sample and batch position, and shapes are preserved. The linear "
     "autoregressive network's outputs at each position depend only on inputs at earlier positions, and samples and "
     "log densities of mismatching shapes are rejected.",
     ['inputs', 'configurations'],
     "all dimensions, ranks, layer counts, both update rules, all variable values including those requiring the "
     "invertibility correction",
     "Tests compare with a Monte Carlo estimate at the random initial parameter values.",
     ['zhusuan/transform.py'],
     [('planar_normalizing_flow', 'zhusuan/transform.py'), ('inv_autoregressive_flow', 'zhusuan/transform.py'),
      ('linear_ar', 'zhusuan/transform.py')],
     ['planar_normalizing_flow', 'inv_autoregressive_flow', 'linear_ar'])

prop('C22', "AIS weights telescope over an increasing temperature ladder",
     "A run of AIS draws fresh states from the proposal, uses temperatures that increase from 0 to exactly 1, and "
     "returns the mean over data of the log of the chain-averaged weight, where each chain's log weight is the sum "
     "over temperatures of the change in annealed log density at its current state. The estimate is exact when the "
     "model equals the proposal up to a constant, and its exponential is an unbiased estimate of the marginal "
     "likelihood.",
     ['inputs', 'histories', 'configurations'],
     "all models, proposals, numbers of temperatures and adaptation iterations, chains and data sizes, repeated runs",
     "The test runs one Gaussian model and compares with a loose tolerance.",
     ['zhusuan/evaluation.py', 'zhusuan/hmc.py'],
     [('AIS.run', 'zhusuan/evaluation.py'), ('temperature schedule', 'zhusuan/evaluation.py')],
     ['AIS.run', 'session run calls', 'latent Variables'],
     state=[('log weights', 'accumulated per chain', 'zhusuan/evaluation.py')])

prop('C23', "Effective sample size obeys its autocorrelation definition",
     "effective_sample_size_1d equals n / (1 + 2 * sum of the initial non-negative sample autocorrelations from lag "
     "1, estimated as in Stan), and effective_sample_size is the smallest value over dimensions after dropping burn_in samples. It is "
     "invariant under shifting and rescaling of the chain and close to n for independent draws.",
     ['inputs'],
     "all chains: independent, autoregressive of any correlation, antithetic, periodic, short and long, any scale",
     "Tests check inequalities on two chains.",
     ['zhusuan/diagnostics.py'],
     [('effective_sample_size_1d, effective_sample_size', 'zhusuan/diagnostics.py')],
     ['effective_sample_size', 'effective_sample_size_1d'])

prop('C24', "log_mean_exp and log_sum_exp are exact and stable",
     "For every tensor, every axis specification and keepdims, log_mean_exp and log_sum_exp return the log of the "
     "mean (sum) of exponentials to rounding error, without overflow or underflow for entries of any magnitude "
     "including infinities, with the softmax as gradient. merge_dicts gives precedence to later dictionaries and "
     "never modifies its inputs.",
     ['inputs'],
     "all shapes, axes (None, int, negative, lists), dtypes, magnitudes up to the dtype's range, +-inf entries",
     "Tests use a few small arrays.",
     ['zhusuan/utils.py'],
     [('log_sum_exp, log_mean_exp, merge_dicts', 'zhusuan/utils.py')],
     ['log_mean_exp', 'log_sum_exp', 'merge_dicts'])

prop('C25', "get_backward_ops returns the exact dependency cone in order",
     "For every graph, get_backward_ops returns each operation the seed tensors depend on exactly once, in an order "
     "where inputs and control inputs precede the operations using them, stopping at treat_as_inputs tensors, which "
     "are not expanded. Nothing outside that dependency cone is returned.",
     ['programs', 'inputs'],
     "all graphs (shared subgraphs, control dependencies, deep chains), seeds and treat_as_inputs sets",
     "Tests use two tiny fixed graphs.",
     ['zhusuan/framework/utils.py'],
     [('get_backward_ops', 'zhusuan/framework/utils.py')],
     ['get_backward_ops'])

prop('C26', "Results are a function of the program and the graph-level seed",
     "With the graph-level seed set (tf.set_random_seed), a program using any part of the library (distributions, "
     "nets, objectives and their gradients, HMC, SGMCMC, AIS, flows) gives bit-identical results whenever it is built "
     "and run again: in the same process, in a second session, in a new process with another hash seed, with other "
     "numbers of inter-op threads, and whatever the state of the global generators of numpy and Python, which are "
     "never used. Another graph-level seed gives other random numbers.",
     ['inputs', 'schedules', 'programs', 'configurations'],
     "all programs, seeds, inter-op thread counts, process states",
     "Tests never run a program twice.",
     ['zhusuan'],
     [('sampling', 'zhusuan/distributions'), ('samplers', 'zhusuan/hmc.py, zhusuan/sgmcmc.py'),
      ('objectives', 'zhusuan/variational'), ('net construction', 'zhusuan/framework')],
     ['all'])

prop('C27', "Only documented state changes",
     "Running a sampler (HMC, SGLD, PSGLD, SGHMC, SGNHT, AIS) changes only the latent variables handed to it and its "
     "own state; running a reinforce() surrogate changes only its own moving mean; evaluating distributions, nets, "
     "objectives, importance sampling estimates, all other surrogates and flows changes no variable. Own state is "
     "never among the trainable variables, so that an optimizer over the default variables moves only the user's and "
     "the flows' parameters; the parameters of flows are trainable and receive gradients. Dictionaries, lists "
     "and arrays handed to the library are not modified.",
     ['inputs', 'histories', 'programs'],
     "all programs combining library parts with variables of the user, all runs",
     "Tests look at the values they expect to change only.",
     ['zhusuan'],
     [('sampler state', 'zhusuan/hmc.py, zhusuan/sgmcmc.py'), ('moving mean', 'zhusuan/variational/exclusive_kl.py'),
      ('flow parameters', 'zhusuan/transform.py')],
     ['all'])

prop('C28', "What is resumed from a checkpoint goes on as if it had not been stopped",
     "The whole state of HMC (adapted step size and its averages, mass estimate, iteration), SGLD, PSGLD, SGHMC and "
     "SGNHT (preconditioner, momenta, frictions, iteration of the resampling period) and of reinforce() (moving mean) "
     "lives in global variables of the graph: when the global variables are saved with tf.train.Saver between any two "
     "runs and restored in a new session, of the same graph or of a graph built again by the same program, later runs "
     "continue the update equations, adaptation recursions, resampling period and moving mean as if the run had not "
     "been stopped.",
     ['histories', 'crash_points', 'configurations'],
     "all points between runs at which a history is stopped, any number of times, all configurations",
     "Tests never restore a sampler.",
     ['zhusuan/hmc.py', 'zhusuan/sgmcmc.py', 'zhusuan/variational/exclusive_kl.py'],
     [('HMC state', 'zhusuan/hmc.py'), ('SGMCMC state', 'zhusuan/sgmcmc.py'),
      ('moving mean', 'zhusuan/variational/exclusive_kl.py')],
     ['HMC', 'SGMCMC', 'reinforce'])

prop('C29', "An expression means the same wherever in a graph it is built",
     "The value and the gradient of log_prob, prob and the shapes of a distribution, of the log joint and conditional "
     "log densities of a net, of the variational objectives, their sgvb, vimco and importance surrogates and "
     "is_loglikelihood on given (sample, log density) pairs, and of log_mean_exp and log_sum_exp depend on their "
     "arguments only, not on where they are built: in a branch of tf.cond, the body of tf.while_loop or tf.map_fn, "
     "inside name, variable or device scopes, under control dependencies, in a template, in tf.function, from another "
     "thread or in another graph, with the distribution or model object built there or outside, first used there or "
     "already used elsewhere. Samples drawn and nets sampled inside a loop are drawn anew in every iteration, follow "
     "the same law as outside, and each iteration of a net is consistent with its own draws.",
     ['inputs', 'programs', 'configurations'],
     "all distributions, nets and objectives x all contexts of the graph, in any order and combination",
     "Tests build every expression at the top level of a fresh graph.",
     ['zhusuan'],
     [('density and shape methods', 'zhusuan/distributions/base.py'), ('nodes and nets', 'zhusuan/framework/bn.py'),
      ('objectives', 'zhusuan/variational/base.py'), ('reductions', 'zhusuan/utils.py')],
     ['Distribution', 'BayesianNet', 'VariationalObjective', 'zhusuan.utils'])

prop('C30', "Objects report what they compute with",
     "What a distribution reports (its parameters, both std and logstd whichever was given, n_categories, "
     "n_experiments, dtype, param_dtype, is_continuous, is_reparameterized, use_path_derivative, group_ndims) are the "
     "values it computes with, before and after use, by whichever class, alias or node route it was built: the "
     "distribution built again from them has the same density. A node reports its own name, net, distribution, dtype, "
     "shape and whether it is observed; all ways of looking nodes up (nodes, [], get, cond_log_prob and the deprecated "
     "outputs, local_log_prob, query) give the same objects and values, several names in the order asked for; its "
     "deprecated sample, log_prob and prob are those of its distribution. An objective reports the model and the "
     "variational net it was given, and its bn is the model observed with that net's samples and the observations "
     "given at construction.",
     ['inputs', 'configurations'],
     "all distributions x parameterisations x static knowledge x routes; all nets, observations and objectives",
     "Tests read attributes of one or two objects built in one way.",
     ['zhusuan/distributions', 'zhusuan/framework/bn.py', 'zhusuan/variational/base.py'],
     [('accessors', 'zhusuan/distributions/univariate.py, zhusuan/distributions/multivariate.py'),
      ('lookup', 'zhusuan/framework/bn.py'), ('meta_bn, variational, bn', 'zhusuan/variational/base.py')],
     ['Distribution', 'StochasticTensor', 'BayesianNet', 'VariationalObjective'])

prop('C31', "Building is separate from running, and nothing outlives its graph",
     "Running anything the library built (fetching nodes and objectives, steps of HMC and SGMCMC, AIS.run, surrogates, "
     "flows) adds no operation to the graph, so that programs run on a finalized graph and do not grow with the number "
     "of runs. Reading the value, density or attributes of a node, the log joint of a net, or the value and net of an "
     "objective again gives the same objects and adds nothing. Once a program's graph, session and objects are "
     "dropped, nothing in the library keeps them alive, however often programs are built, in whatever thread, and "
     "also when building failed with an exception; a failed build leaves no net or observation in force.",
     ['programs', 'histories', 'crash_points'],
     "all programs, any number of runs and rebuilds, any point at which building fails",
     "Tests build one graph per test and never look at what is left.",
     ['zhusuan'],
     [('memoised tensors', 'zhusuan/framework/bn.py, zhusuan/variational/base.py'),
      ('context stacks', 'zhusuan/framework/utils.py'), ('samplers', 'zhusuan/hmc.py, zhusuan/sgmcmc.py'),
      ('AIS.run', 'zhusuan/evaluation.py')],
     ['all'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
