"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
S = 'src/lop/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    at = lambda f: f if f.startswith('experiments/') else S + f
    anchors = {'files': [at(f) for f in files],
               'mechanism': [{'name': n, 'where': at(w)} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    anchors['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': anchors})


prop('C01', 'Every label stays attached to the item it was given for',
     'After any sequence of adding pairwise, ordinal and absolute feedback (in any mix), adding prior points, and resetting, '
     'the training set of a preference model holds exactly the items and labels that were supplied, each label still referring to the item it was given for. '
     'No label is lost, duplicated, reordered across items or altered, apart from absolute ratings being clamped into [0.001, 0.999]. '
     'With dominance pairs switched on, the only additional labels are preferences of a newly added item over items it exceeds strictly in every feature, and adding prior points drops exactly the items that take part in no label.',
     ['histories', 'inputs'], 'all histories of add/add_prior/reset over 1-D and n-D items, all feedback kinds, all batch sizes, with and without dominance pairs',
     'Tests add two or three hand-written batches and look at a few array entries; index shifting errors only show for particular orders of batches, mixed feedback kinds, or points removed before or after the prior block.',
     ['models/PreferenceModel.py', 'models/PreferenceGP.py', 'models/PreferenceLinear.py'],
     [('offsetting of pair/ordinal/rating indices by the number of stored items', 'models/PreferenceModel.py: add'),
      ('index compaction when unreferenced prior points are dropped', 'models/PreferenceModel.py: remove_without_reference, add_prior'),
      ('dominance pair generation', 'models/PreferenceModel.py: add')],
     state=[('training items and label store', 'what the model has been told', 'models/PreferenceModel.py')],
     observe=['model training data after every public call'])

prop('C02', 'Rejected feedback leaves the model exactly as it was',
     'Feedback that the model refuses with an error or a message (ratings outside [0, 1] or not a number, non-positive ordinal ratings, label containers or types of unknown kind) changes nothing: '
     'the stored items and labels are the same as before the call. '
     'Predictions and all later additions behave as if the refused call had never been made.',
     ['histories', 'fault_sequences'], 'all histories with refused additions injected at any point, before and after fitting',
     'Tests only check that an exception is raised; what is left behind, and what the next prediction or addition does with it, is never looked at.',
     ['models/PreferenceModel.py'],
     [('validation before mutation', 'models/PreferenceModel.py: add')],
     observe=['training data and predictions after a refused addition'])

prop('C03', 'Predictions always reflect exactly the current training data',
     'However additions, predictions, resets and re-additions are interleaved, a prediction is the one a new model given the current data (and the same prior points) would give. '
     
     'Fitting happens lazily, and asking for a prediction twice without new data gives the same answer. '
     'After a reset nothing of the earlier data influences the model.',
     ['histories'], 'all interleavings of add, predict, predict_large, optimize and reset for the regression GP, the preference GP and the linear preference model',
     'Tests train once and predict once; stale caches only show when a prediction happens between two additions or after a reset.',
     ['models/GP.py', 'models/PreferenceGP.py', 'models/PreferenceLinear.py', 'models/PreferenceModel.py'],
     [('"optimised" flag cleared on every mutation and checked on predict', 'models/PreferenceModel.py, models/PreferenceGP.py, models/PreferenceLinear.py')],
     state=[('fitted values', 'cached latent values / weights of the last fit', 'models/PreferenceGP.py, models/PreferenceLinear.py')],
     observe=['predict after each prefix of a history'])

prop('C04', 'Regression GP predicts the exact Gaussian posterior',
     'For any data, kernel, mean function and per-sample noise, the regression Gaussian process returns the exact posterior mean (prior mean plus K*(K+noise)^-1 residual) and variance under its kernel, and keeps the matching full covariance. '
     'Splitting the same data over several additions or permuting it does not change the prediction. '
     'With no data the prediction is the prior.',
     ['inputs', 'histories'], 'all data sets, batch splits, noise vectors, kernels, mean functions and query sets',
     'Tests compare one or two tiny data sets against stored numbers and never vary noise vectors, mean functions or batch splits.',
     ['models/GP.py'], [('Cholesky solve of the posterior', 'models/GP.py: predict'), ('bookkeeping of noise per sample', 'models/GP.py: add')],
     observe=['predict mean, variance, covariance'])

prop('C05', 'Predictions are finite and independent of how they are batched',
     'Mean and variance predicted for a point are finite, the variance is non-negative, and the outputs have one entry per queried point. '
     'As long as the query is not exactly the training set, they do not depend on which other points are in the same query, on the order of the points, on how the array holding them is stored (whole numbers as integers, views, column order), or on whether the plain, call-style or large-batch prediction entry point is used. '
     'The best-candidate query returns the candidate with the highest predicted value.',
     ['inputs', 'configurations'], 'all trained and untrained models, kernels and query sets, including repeated points, training points and sets larger than any internal chunk',
     'Tests predict on one linspace per model; repeated points, single-point queries and chunk boundaries are not reached.',
     ['models/Model.py', 'models/GP.py', 'models/PreferenceGP.py', 'models/PreferenceLinear.py', 'kernels/RBF_kern.py'],
     [('chunked prediction', 'models/PreferenceGP.py: predict_large'), ('argmax selection', 'models/Model.py: select_best')],
     observe=['predict / predict_large / call / select_best'])

prop('C06', 'Preference GP fit is the posterior mode with its Laplace approximation',
     'After fitting to any mix of pairwise, ordinal and absolute feedback, the latent values of the training items are a stationary point of log-likelihood plus Gaussian prior. '
     'Predicted mean and covariance are those of the Laplace approximation around that point, for every query set. '
     'Items preferred unanimously and consistently end up ordered by the latent values. '
     'A single Newton update, with every documented step rule, follows the objective uphill, and on a concave quadratic reaches the maximum within the resolution of the step rule.',
     ['inputs', 'configurations'], 'all consistent and contradictory data sets mixing the three feedback kinds, all kernels and likelihood parameters',
     'Tests check orderings on one or two toy sets; a biased fit or a wrong covariance still orders them correctly.',
     ['models/PreferenceGP.py', 'models/PreferenceModel.py', 'probits/PreferenceProbit.py', 'probits/AbsBoundProbit.py', 'probits/OrdinalProbit.py'],
     [('damped Newton iteration', 'models/PreferenceGP.py: find_mode; models/PreferenceModel.py: newton_update'),
      ('Laplace predictive equations', 'models/PreferenceGP.py: predict'),
      ('accumulation of gradient and curvature over feedback kinds', 'models/PreferenceGP.py: derivatives')],
     observe=['latent values, gradient residual, predict output, newton_update and line search results'])

prop('C07', 'Linear preference model fit is the posterior mode and predicts linearly',
     'After fitting to any mix of feedback the linear preference model holds weights that are a stationary point of the log-likelihood it maximises. '
     'Its predictions are exactly linear in the input features: the prediction of a weighted sum of items is the weighted sum of their predictions. '
     'Its reported likelihood derivatives agree with numerical differentiation of its log-posterior.',
     ['inputs', 'histories'], 'all data sets (pairwise, ordinal, absolute, mixed), dimensions and weight priors',
     'Tests fit one small pairwise data set and check ordering only.',
     ['models/PreferenceLinear.py', 'models/PreferenceModel.py'],
     [('Newton iteration on weights', 'models/PreferenceLinear.py: optimize'), ('chain rule from items to weights', 'models/PreferenceLinear.py: derivatives')],
     observe=['weights, predict output'])

prop('C08', 'Kernels are valid covariance functions',
     'For every kernel, sum and product of kernels, and every parameter setting, the covariance matrix of any set of points is symmetric, has the value of the documented kernel formula in every entry (plus the kernel\'s noise on the diagonal), and is positive semidefinite up to rounding, for periodic kernels on a single feature. '
     'The cross-covariance of two sets contains exactly the pairwise kernel values, transposes when the sets are swapped, and an entry depends only on its two points. '
     'The sum (product) of kernels has the sum (product) of the parts as covariance.',
     ['inputs', 'configurations'], 'all kernels, compositions, parameter settings, point sets in one or more dimensions, including repeated and shared points',
     'Tests evaluate a handful of fixed points per kernel; symmetry, definiteness, nesting of compositions and sets that share points are not explored.',
     ['kernels/KernelFunc.py', 'kernels/RBF_kern.py', 'kernels/RBF_kern_zeroed.py', 'kernels/PeriodicKern.py', 'kernels/LinearKern.py'],
     [('covariance construction', 'kernels/*.py: cov'), ('composition operators', 'kernels/KernelFunc.py: DualKern')],
     observe=['cov(X, Y), kernel(u, v)'])

prop('C09', 'Kernel parameter derivatives match the kernel',
     'For every kernel and composition, the reported derivatives of the covariance with respect to each hyper-parameter equal the numerical derivative of the covariance with respect to that parameter, in the same order as the parameters are reported and for single pairs as for whole matrices. '
     'The derivative of each hyper-parameter prior equals the numerical derivative of its log density.',
     ['inputs', 'configurations'], 'all kernels, compositions, parameter values and point sets',
     'Tests compare derivatives at one or two fixed points for some kernels only; compositions and repeated points are missing.',
     ['kernels/KernelFunc.py', 'kernels/RBF_kern.py', 'kernels/RBF_kern_zeroed.py', 'kernels/PeriodicKern.py', 'kernels/LinearKern.py'],
     [('analytic gradients', 'kernels/*.py: cov_gradient, gradient, grad_param_likli')],
     observe=['cov_gradient vs finite differences of cov'])

prop('C10', 'Hyper-parameters round-trip through the flat vector',
     'For every kernel, likelihood and model, writing a hyper-parameter vector and reading it back yields the same vector, writing changes exactly the parameters it should, and reading never changes anything. '
     'All vectors that describe the same parameters (values, random draws, prior gradients, likelihood gradients) have the same length and order, whichever kinds of feedback are present.',
     ['configurations', 'inputs'], 'all kernels and nested compositions, likelihoods, models and combinations of feedback kinds present or absent',
     'Tests round-trip a few single objects; slot shifts appear only for nested compositions or when some kinds of feedback are absent.',
     ['kernels/KernelFunc.py', 'models/PreferenceModel.py', 'models/PreferenceGP.py', 'probits/ProbitBase.py', 'probits/PreferenceProbit.py', 'probits/AbsBoundProbit.py', 'probits/OrdinalProbit.py'],
     [('slicing of the flat vector', 'kernels/KernelFunc.py: DualKern; models/PreferenceModel.py: get_hyper, set_hyper; models/PreferenceGP.py')],
     observe=['get/set/randomize round trips'])

prop('C11', 'Feedback likelihoods are proper, monotone probability models',
     'For any latent values and parameters the pairwise probabilities of the two outcomes sum to one, the probabilities of all ordinal levels sum to one and the rating density integrates to one over (0, 1). '
     'Raising the latent value of an item never makes it less likely to be preferred, nor shifts its ordinal or absolute ratings downward in expectation. '
     'The log-likelihood of a data set is finite and equals the sum of the logs of the individual likelihoods, and does not depend on label order.',
     ['inputs', 'configurations'], 'all latent vectors (including extreme differences), label sets, scale and threshold parameters',
     'Tests evaluate fixed vectors; normalisation, monotonicity and tail behaviour are universally quantified.',
     ['probits/PreferenceProbit.py', 'probits/AbsBoundProbit.py', 'probits/OrdinalProbit.py', 'probits/ProbitBase.py'],
     [('likelihood and log-likelihood evaluation', 'probits/*.py'), ('tail-safe normal functions', 'probits/ProbitBase.py')],
     observe=['likelihood, log_likelihood, likelihood_all_pairs'])

prop('C12', 'Likelihood gradients and curvature match the likelihood',
     'For any latent values and labels, the gradient each likelihood reports equals the numerical gradient of its log-likelihood and the reported curvature matrix equals minus the numerical Hessian and is symmetric. '
     'This includes items that appear in several labels or in none.',
     ['inputs'], 'all latent vectors, label multisets and parameters for the pairwise, ordinal and absolute likelihoods',
     'Tests compare a few fixed configurations, without repeated items, contradictory labels or extreme values.',
     ['probits/PreferenceProbit.py', 'probits/AbsBoundProbit.py', 'probits/OrdinalProbit.py'],
     [('analytic derivatives', 'probits/*.py: derivatives')],
     observe=['derivatives vs finite differences of log_likelihood'])

prop('C13', 'Hyper-parameter gradients match the likelihood',
     'The derivative of each likelihood with respect to its own parameters, and of its gradient and curvature with respect to parameters and latent values, equals the corresponding numerical derivative. '
     'The derivative of each parameter prior equals the numerical derivative of its log density.',
     ['inputs', 'configurations'], 'all latent vectors, label multisets and parameter values of likelihoods used in hyper-parameter search',
     'Only a few are compared, at one configuration; sign or factor errors in the others silently misdirect the search.',
     ['probits/PreferenceProbit.py', 'probits/AbsBoundProbit.py', 'probits/OrdinalProbit.py'],
     [('analytic third-order and parameter derivatives', 'probits/*.py: grad_hyper, calc_W_dF, calc_W_dHyper, grad_param_likli')],
     observe=['grad_hyper, calc_W_dF, calc_W_dHyper vs finite differences'])

prop('C14', 'A selected query is a valid set of distinct, allowed candidates',
     'Whatever the learner, model state and candidate set, selecting a query of n alternatives returns n distinct in-range candidate indices (or one, when the learner chose or only supports a rating query), none of them among the previously selected ones. '
     'When preferred candidates are given, others are used only after all eligible preferred ones, and when the learner is told to always include the best it comes first and is the highest predicted eligible candidate. '
     'Indices reported as not selected are eligible candidates outside the returned query, and the caller\'s candidate, preference and history arguments are left unchanged.',
     ['inputs', 'configurations', 'histories'], 'all learners, models, candidate sets, numbers of alternatives, previous selections and preference arguments',
     'Tests call each learner on one or two candidate sets with default arguments; combinations of previous selections, preferred sets and query sizes are sampled at a handful of points.',
     ['active_learning/ActiveLearner.py', 'active_learning/AcquisitionSelection.py', 'active_learning/AcquisitionBase.py', 'active_learning/AbsAcquisition.py', 'active_learning/RandomLearner.py', 'models/Model.py'],
     [('candidate filtering and greedy loop', 'active_learning/ActiveLearner.py: select'), ('pair search', 'active_learning/ActiveLearner.py: select_pair hooks')],
     observe=['return value of select'])

prop('C15', 'Each learner greedily maximises its documented score',
     'Every selection by a best, worst, upper-confidence, generalised-variance or mutual-information learner is a maximiser, over the candidates still eligible, of that learner\'s documented score computed from the model\'s predicted mean and covariance. '
     'The generalised-variance score depends on the points already chosen in the query as documented, and the random learner reaches every eligible candidate.',
     ['inputs', 'configurations'], 'all models, candidate sets, learner parameters and partial selections',
     'Tests compare one toy set; a learner that ignores part of the score (for example the covariance) still passes.',
     ['active_learning/BestLearner.py', 'active_learning/UCBLearner.py', 'active_learning/GV_UCBLearner.py', 'active_learning/MutualInfoLearner.py', 'active_learning/RandomLearner.py', 'active_learning/ActiveLearner.py'],
     [('score and argmax', 'active_learning/*Learner.py: select_greedy')],
     observe=['select/select_greedy versus reference scores'])

prop('C16', 'Alignment acquisition equals the expected alignment it stands for',
     'The alignment measures between sampled reward functions are the documented statistics: invariant to what they should be invariant to, symmetric, and on average never larger for two different sampled functions than for identical ones. '
     'The score of every query is its expected alignment, averaging over sampled reward functions weighted by the probability that the user gives each possible answer, and the chosen query is a maximiser over the allowed queries. '
     'The vectorised computation agrees with the direct double sum.',
     ['inputs', 'configurations'], 'all sample sets, reward matrices, likelihood parameters and candidate subsets, for every alignment measure',
     'Tests compare shapes and one stored number; axis or normalisation errors that keep the shape are not detected.',
     ['active_learning/AcquisitionBase.py', 'active_learning/AcquisitionSelection.py', 'active_learning/AbsAcquisition.py'],
     [('alignment statistics', 'active_learning/AcquisitionBase.py: alignment'), ('expected alignment', 'active_learning/AcquisitionSelection.py: quick_calculation_sum_align_q')],
     observe=['alignment, alignment_between, select_pair'])

prop('C17', 'Mixed-type learners follow their documented query-type rule',
     'In every round a mixed-type learner delegates to exactly the query type its rule prescribes (alternation, fixed switching round, peak schedules, or comparison of the scores of a rating query and a pairwise query) and returns what that sub-learner selects. '
     'Sub-learners always work on the current model and on samples drawn for the current candidates. '
     'The round counter advances once per query.',
     ['histories', 'configurations'], 'all mixed learners, round histories, sub-learner scores including ties, and changing candidate sets and models',
     'Tests run one or two rounds; schedule boundaries, ties and stale samples appear only in longer histories.',
     ['active_learning/RateChooseLearner.py', 'active_learning/MixedStrategy.py', 'active_learning/MixedTypeDecision.py'],
     [('query-type decision', 'active_learning/RateChooseLearner.py, MixedStrategy.py, MixedTypeDecision.py: select')],
     state=[('round counter and decision state', 'position in the schedule', 'active_learning/MixedStrategy.py, RateChooseLearner.py')],
     observe=['calls to the sub-learners and the returned query'])

prop('C18', 'Asking for queries or predictions does not change what was learned',
     'Predicting, selecting queries, plotting, evaluating likelihoods and drawing samples never add, remove or alter training data or hyper-parameters. '
     'Predictions of a fitted model with data are the same before and after any number of such calls, with any learner.',
     ['histories', 'configurations'], 'all learners and models, any sequence of read-only calls on a fitted model',
     'Tests never compare the model before and after a query.',
     ['active_learning/ActiveLearner.py', 'active_learning/AcquisitionBase.py', 'active_learning/RateChooseLearner.py', 'active_learning/MixedStrategy.py', 'active_learning/MixedTypeDecision.py', 'active_learning/BayesInfoGain.py', 'models/PreferenceGP.py', 'models/PreferenceLinear.py'],
     [('sampling and what-if computations work on copies', 'active_learning/*.py')],
     observe=['training data, hyper-parameters, predictions around each call'])

prop('C19', 'Pareto fronts are exactly the non-dominated items',
     'The reported front contains an index exactly when no other item is at least as good in every feature and better in one, for any number of items and features, with duplicated and tied values. '
     'Reordering the items permutes the front accordingly, and the indices are distinct and refer to the given array, which is not modified.',
     ['inputs'], 'all finite reward matrices, including ties, duplicates, single rows and single columns',
     'Tests use one hand-made and one random matrix.',
     ['utilities/pareto.py'], [('dominance filter', 'utilities/pareto.py: get_pareto')],
     observe=['get_pareto'])

prop('C20', 'Choice model gives a proper softmax distribution',
     'Choice probabilities are non-negative, sum to one for each choice set, never decrease with the reward and depend only on reward differences scaled by rationality, for single sets and batches of sets, also for very large rewards. '
     'Sampled choices are valid positions that follow those probabilities, each draw independently of the others, also those drawn in one call.',
     ['inputs'], 'all finite reward vectors and batches, all rationality values',
     'Tests compare two or three vectors; overflow, batches with very different magnitudes and sampling frequencies are not covered.',
     ['utilities/human_choice_model.py'], [('stabilised softmax', 'utilities/human_choice_model.py: p_human_choice'), ('inverse-CDF sampling', 'utilities/human_choice_model.py: sample_human_choice')],
     observe=['p_human_choice, sample_human_choice'])

prop('C21', 'Synthetic users answer according to their reward function',
     'A perfect user always prefers an item with the highest reward, and its ratings increase with the reward. '
     'A stochastic user answers with the frequencies its choice model prescribes, its calibration of rationality and rating noise reaches the requested accuracy when that is attainable, and its ratings stay in [0, 1] and scatter around the reward as its noise prescribes, each rating independently of the others, also those of items rated in one call. '
     'Answers refer to the positions in the query shown.',
     ['inputs', 'histories'], 'all reward functions, queries, rationality and noise settings',
     'Tests ask one or two queries; frequency and calibration claims need many.',
     ['utilities/synthetic_user.py', 'utilities/HumanChoiceUser2.py'],
     [('answer generation', 'utilities/synthetic_user.py, HumanChoiceUser2.py'), ('calibration of rationality', 'utilities/synthetic_user.py: learn_beta')],
     observe=['choose, choose_pairs, rate, learn_beta'])

prop('C22', 'Cross-validation splits conserve and correctly re-index labels',
     'The folds of a training set place every item in exactly one fold, with fold sizes differing by at most one item. '
     'A part keeps, for every feedback kind, exactly the labels whose items all lie in that part, each with its value unchanged and still referring to the same item as before, and the data itself is not modified.',
     ['inputs'], 'all data sets and fold numbers, mixes of feedback kinds, items shared between labels',
     'Tests use one small pairwise set and look at shapes.',
     ['utilities/training_utility.py'], [('fold construction and index compaction', 'utilities/training_utility.py: k_fold_x_y, get_y_with_idx')],
     observe=['k_fold_x_y, get_y_with_idx'])

prop('C23', 'Sampled query sets are distinct, valid and unbiased',
     'Sampling k unique subsets returns exactly k different subsets, each with the requested number of distinct in-range members, from every feasible size up to all subsets. '
     'Every subset, and every member, is drawn equally often.',
     ['inputs', 'configurations'], 'all feasible (population, number, size) triples and random states',
     'Tests check two settings.',
     ['utilities/sample_utility.py', 'active_learning/AcquisitionBase.py'], [('rejection of repeated sets', 'utilities/sample_utility.py: sample_unique_sets')],
     observe=['sample_unique_sets, get_representative_Q'])

prop('C24', 'Preference encodings agree with the values or ranking they encode',
     'Pairs generated from values, a chosen best item, or a ranking encode, for every ordered pair they cover, the direction of the values or ranking, cover exactly the pairs they should, once each, and use in-range indices. '
     'For different values the pair code for (a, b) is the opposite of the code for (b, a).',
     ['inputs'], 'all value vectors (with ties), chosen indices and rankings, all sizes',
     'Tests list one or two examples.',
     ['utilities/preference_pairs.py'], [('pair generation', 'utilities/preference_pairs.py')],
     observe=['get_dk, gen_pairs_from_idx, ranked_pairs_from_fake, generate_fake_pairs, generate_ranking_pairs'])

prop('C25', 'Reward test functions are pure and consistent between single and batch',
     'Each synthetic reward function (except the unfinished FakeIntegrate) gives the same value for an item alone or inside any batch, gives one value per row, does not modify its input, and a fixed instance always gives the same value for the same item. '
     'Documented shapes hold: the linear one is linear, the weighted minimum and maximum are the minimum and maximum of the weighted features, and the logistic ones are monotone and bounded, and all functions documented as monotone never decrease with a reward.',
     ['inputs', 'configurations'], 'all functions, dimensions, parameters and batch shapes',
     'Tests check one value per function.',
     ['utilities/FakeFunction.py'], [('vectorised evaluation', 'utilities/FakeFunction.py')],
     observe=['calls on rows and batches'])

prop('C26', 'Distribution helpers equal the distributions they name',
     'The gamma density, its logarithm and its log-derivative agree with each other and with the reference distribution for all positive arguments. '
     'The probability that a multivariate normal is negative in every coordinate is exact for the full method, exact without correlation for the independent method, exact for correlations in disjoint pairs for the switching method, and between 0 and 1. '
     'The probability of each candidate being the best built on it sums to one, matches sampling, and is invariant to shifting all means.',
     ['inputs'], 'all admissible parameters and arguments',
     'Tests evaluate a few constants.',
     ['utilities/gamma_dist.py', 'utilities/probability_utility.py'], [('closed forms', 'utilities/gamma_dist.py'), ('orthant probability', 'utilities/probability_utility.py')],
     observe=['gamma functions, calc_cdf'])

prop('C27', 'Markov-chain sampler draws from its target',
     'The sampler returns the requested number of states of the requested shape, never leaves the states of positive target density, and moves to a proposal with probability min(1, density ratio), which leaves the target distribution invariant for symmetric proposals. '
     'Long-run frequencies match the target for any target and proposal width.',
     ['inputs', 'configurations'], 'all targets, dimensions, proposal widths, sample counts',
     'Tests check the shape and a loose mean.',
     ['utilities/mcmc_sampling.py'], [('accept/reject step', 'utilities/mcmc_sampling.py')],
     observe=['sampler output and target evaluations'])

prop('C28', 'Caller-owned arrays are neither modified nor aliased',
     'No public operation modifies arrays, lists or sets passed to it. '
     'Changing such an array after the call does not change what the model has stored or predicts.',
     ['histories', 'inputs'], 'all public operations taking arrays, all argument forms accepted',
     'Tests never look at their arguments afterwards.',
     ['models/PreferenceModel.py', 'models/GP.py', 'models/PreferenceGP.py', 'models/PreferenceLinear.py', 'active_learning/ActiveLearner.py', 'utilities/training_utility.py'],
     [('copy on entry', 'models/PreferenceModel.py: add; models/GP.py: add')],
     observe=['arguments and model state before/after'])

prop('C29', 'Learning from a consistent user recovers the user\'s ordering',
     'When a perfect user answers 15 queries chosen by any learner (comparisons, and ratings for the mixed learners; rewards linear for the linear model, linear or concave for the GP), the ranking the model gives unseen items agrees with the user\'s reward on average (pooled rank correlation well above what it was after one answer), and the model reproduces nearly all of the clear answers it was given. '
     'This stays so with long histories of comparisons: with 40 and more comparisons added one after another nearly all clear ones are reproduced, early ones as well as late ones. '
     'One further answer moves the prediction in its own direction: answering that a is better than b never lowers the predicted f(a) - f(b); the top / bottom ordinal level never lowers / raises the item\'s prediction and predictions after levels 1..5 are ordered; a rating clearly above / below the currently predicted rating never lowers / raises the prediction, and higher ratings never give lower predictions. The movement is visible unless the model was already certain of the answer.',
     ['histories', 'configurations'], 'all learners, models, reward functions and query histories',
     'No test closes the loop between user, learner and model.',
     ['models/PreferenceGP.py', 'models/PreferenceLinear.py', 'active_learning/ActiveLearner.py', 'utilities/synthetic_user.py'],
     [('query - answer - update loop', 'models/Model.py: select; models/PreferenceModel.py: add')],
     observe=['answers given, predictions, rank correlation'])

prop('C30', 'Runs with the same seed are identical',
     'With the global random generators (numpy.random and random) seeded, constructing models, adding data, fitting, predicting, sampling and selecting queries twice gives identical results, in the same process, after unrelated work, interleaved with other instances and in another process. '
     'Separately constructed models, learners and likelihoods share no mutable state, so working with one never changes another.',
     ['histories', 'configurations'], 'all learners, models and operation histories, repeated in one process and with unrelated instances in between',
     'Tests seed once and never repeat a run or interleave two instances.',
     ['models/PreferenceModel.py', 'models/PreferenceGP.py', 'active_learning/ActiveLearner.py', 'kernels/KernelFunc.py'],
     [('single source of randomness; per-instance state', 'all modules')],
     observe=['outputs of repeated runs'])

prop('C31', 'Hyper-parameter search leaves a consistent model and follows its objective',
     'Searching hyper-parameters with comparisons and ratings leaves training data untouched, keeps every hyper-parameter finite and positive at every step, moves along the gradient of its objective, does not give up before its tolerance or step limit is reached, and leaves exactly the fit that the installed hyper-parameters give (a new model with the same data and hyper-parameters predicts the same). '
     'When only likelihood parameters are searched the kernel is untouched; with fewer than four items, or in the linear model, nothing changes. '
     'The log marginal likelihood used by the search equals log-likelihood - F K^-1 F / 2 - log|I + K W| / 2, its gradient is exact for kernel parameters (including the movement of the mode) and for likelihood parameters at fixed latent values, and random starting points follow the declared priors.',
     ['inputs', 'configurations', 'histories'], 'all data sets of comparisons and ratings, kernels and search options',
     'Tests run a search once and check that it terminates.',
     ['models/PreferenceGP.py', 'models/PreferenceModel.py', 'utilities/training_utility.py'],
     [('k-fold search loop', 'models/PreferenceGP.py: optimize, hyperparameter_search'), ('objective', 'models/PreferenceGP.py: likli_f_hyper, grad_likli_f_hyper, hyper_liklihood')],
     observe=['hyper-parameters and data around every step, fit left behind, objective and gradients'])

prop('C32', 'Evaluation numbers are what they claim to be',
     'Evaluating a model on planning problems reports, for every problem, the score the model gives its best Pareto-optimal path, the true utility of that path, the regret (true best utility minus the true utility of the path the model picks, never negative), the true rank of the picked path, '
     'the share of problems decided right, the mean rank, and the Spearman, Pearson and choice-distribution agreement between predictions and true utilities; each equals its definition applied to the predictions of the model and the user\'s utilities on exactly the Pareto-optimal paths of that problem. '
     'Agreement is 1 (or distance 0) for a model that reproduces the user up to the allowed transformation, and evaluation changes neither the path data nor what the model has learned.',
     ['inputs', 'configurations'], 'all path sets with any Pareto-optimal subset, all user functions and models',
     'No test runs an evaluation.',
     ['experiments/experiment_helper.py'],
     [('scores of one evaluation problem', 'experiments/experiment_helper.py: evaluation'), ('agreement measures', 'experiments/experiment_helper.py: get_spearman, get_pearson, get_rho')],
     observe=['evaluation results, predictions, true utilities'])

prop('C33', 'An experiment follows its protocol and saves what happened',
     'An experiment builds the learner, model, user and user function it was asked for with the requested options, and uses every training problem for one query: the candidates are its paths (as many distinct ones as requested when downsampling), the user is asked about exactly the selected paths and the model is given exactly the user\'s answer for those paths. '
     'With Pareto pairs switched on, Pareto-optimal candidates are shown first and paths considered but not shown are added unlabelled; the reported query types, correctness of answers, evaluation numbers and recorded states are those of the model at each stage. '
     'A campaign passes its options to every run, keeps each run in its own folder, and saves exactly the runs that were completed, also when it is interrupted at any point.',
     ['configurations', 'histories', 'crash_points'], 'all selectors, selection types, models, users, user functions, downsampling modes; all points of interruption of a campaign',
     'No test runs an experiment; a mismatch between query and label, or a lost or half-finished run, leaves plausible numbers.',
     ['experiments/experiment_helper.py', 'experiments/single_experiment.py'],
     [('query - answer - label loop', 'experiments/experiment_helper.py: train_and_eval'), ('construction from names', 'experiments/experiment_helper.py: get_active_learner, get_model, get_fake_func, get_synth_user'), ('downsampling', 'experiments/experiment_helper.py: downsample_*'), ('runs and saving', 'experiments/single_experiment.py: main')],
     observe=['trace of queries, answers, labels, predictions; saved files'])

prop('C34', 'Information-gain learners score the expected loss of uncertainty',
     'The probabilities of being the best that an information-gain learner works with form a distribution and are those of the current prediction for the current candidates. '
     'The score of a comparison query equals the entropy of the best candidate minus its expected entropy after the answer, with answers distributed as the model\'s pairwise likelihood says and the best candidate winning its comparisons as the chosen answer model says; '
     'the score is finite, the same for a pair chosen together or one after the other, and the pair or further alternative selected is a maximiser over the allowed candidates. '
     'The score of a rating query equals the entropy minus the expected entropy when the best candidate lies below the rating given, averaged over sampled rewards of the prediction, is finite, and the rated candidate is a maximiser over the allowed ones.',
     ['inputs', 'configurations', 'histories'], 'all models with data, candidate sets (clear winners, ties, duplicates), answer models, histories and preferred sets',
     'Tests check that a selection is returned; a gain that is NaN, zero for every candidate or stale still selects something.',
     ['active_learning/BayesInfoGain.py', 'active_learning/AbsBayesInfo.py', 'active_learning/ActiveLearner.py', 'utilities/probability_utility.py'],
     [('gain of pairs and of further alternatives', 'active_learning/BayesInfoGain.py: select_pair, select_greedy, calc_H_B_Q'), ('gain of a rating', 'active_learning/AbsBayesInfo.py: select_greedy'), ('probability of being best', 'active_learning/ActiveLearner.py: p_B_pref_gp, p_B_pref_linear, pick_pair_from_metric')],
     observe=['select_greedy and select_pair results and reported scores, recorded probabilities and samples'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
