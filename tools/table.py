"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), technique=None, level='other', note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, level=level, note=note, na=na))

EX = 'aideme/explore/'; AL = 'aideme/active_learning/'; UT = 'aideme/utils/'
BASE_TESTS = 'The reliable tests only exercise the one-dimensional hull and cone with a few literals; '

prop('C01', 'Every reference in the package resolves',
     'Importing any module of the package, and running any of its functions on the supported library versions, never fails because an imported symbol, a module-level name, a library attribute, or an attribute of one of the package\'s own objects does not exist or has not been initialised yet. Calls between the package\'s own functions always match the signature of the callee.',
     ['programs', 'configurations'], 'every module, function body, constructor path and call site of the package, including those no test executes',
     BASE_TESTS + 'a wrong name in any other function, option branch or constructor is only met when that very line runs.',
     ['aideme'], [dict(name='imports, module globals and class attributes', where='aideme/**/*.py')])
prop('C02', 'Moves change the partition of exactly the given points',
     'After any sequence of operations on a partitioned dataset, the LABELED, INFERRED and UNKNOWN partitions tile the whole data set without overlap. Moving points to a partition (or flushing the inferred one) changes the partition of exactly the given points, to exactly the requested partition, and asking to move a point into a partition it already belongs to raises ValueError.',
     ['histories', 'inputs'], 'all sequences of moves, flushes and clears, all data set sizes, all batches and all positions of a point relative to the partition boundaries',
     BASE_TESTS + 'partition bookkeeping depends on the whole history and on where a point lies relative to both boundaries; no reliable test touches it.',
     [EX+'partitioned.py'], [dict(name='boundary counters and row swaps', where=EX+'partitioned.py')])
prop('C03', 'Rows, indexes and lookups stay coherent',
     'In every state of a partitioned dataset, each data row is stored together with the index it was given originally, and looking points up by index returns exactly the rows of those points, in the requested order. Clearing restores every point to the unknown partition, ordered by index.',
     ['histories', 'inputs'], 'all sequences of moves and clears, all index values (not only 0..n-1)',
     BASE_TESTS + 'a mismatch needs a history that permutes rows, and indexes that differ from row numbers.',
     [EX+'partitioned.py', EX+'index.py'], [dict(name='swap of data, index and index-to-row map', where=EX+'partitioned.py'), dict(name='index-to-row map', where=EX+'index.py')])
prop('C04', 'Training labels are aligned with training rows',
     'In every reachable state, the training set returned by a partitioned dataset pairs each labeled row with the label (and partial labels) the user gave to that point, and the last training set contains exactly the points of the most recent labeling with their labels. This holds also after points leave the labeled partition.',
     ['histories', 'inputs'], 'all interleavings of labelings, inferences, flushes and clears, in batches of any size and order',
     BASE_TESTS + 'alignment is a relation between two structures over a whole history of moves.',
     [EX+'partitioned.py', EX+'labeledset.py'], [dict(name='stored labels follow the labeled rows', where=EX+'partitioned.py'), dict(name='concatenation and selection of labels', where=EX+'labeledset.py')])
prop('C05', 'Predicted user labels keep what the user said',
     'The predicted labeling of the whole data set gives every user-labeled point the label its user gave it, gives every other point the learner\'s prediction for that very point, and pairs each label with the index of its point. The result is a snapshot: later moves do not change it.',
     ['histories', 'inputs'], 'all partition states (none, some or all points labeled) and all learners',
     BASE_TESTS + 'needs a dataset whose rows were permuted by earlier moves.',
     [EX+'partitioned.py', EX+'manager.py'], [dict(name='assembly of labels', where=EX+'partitioned.py')])
prop('C06', 'Only unlabeled points are ever proposed',
     'Every point proposed for labeling by an active learner belongs to the current unlabeled pool, is never one the user has already labeled, and is returned with its own index. When a subsample size is given, the candidates are a sample without replacement of at most that many pool points.',
     ['histories', 'inputs', 'configurations'], 'every learner, every subsample size and every exploration state',
     BASE_TESTS + 'no reliable test runs a learner.',
     [AL+'active_learner.py', AL+'dsm/base.py', EX+'partitioned.py', 'aideme/initial_sampling.py'], [dict(name='pool construction and sampling', where=AL+'active_learner.py')])
prop('C07', 'Seeded runs are reproducible',
     'Two runs of the exploration loop with the same data, labels, learner configuration and seed draw the same random numbers: every random draw made by the package comes from the seeded process-wide generators (or from a generator built from an explicit seed), the seed is installed before the first draw of each run, and nothing derived from the clock, object identity or hash order influences a run.',
     ['configurations', 'histories'], 'all learners, samplers, optimizers and option combinations; all seeds',
     BASE_TESTS + 'a stray generator only shows when two full runs with that component are compared.',
     [EX+'explore.py', UT+'random.py', AL], [dict(name='global seeding at the start of each run', where=EX+'explore.py')])
prop('C08', 'clear() returns a component to its initial state',
     'After clear(), every learner, polytope model, sampler, cache, dataset and exploration manager holds the same state as right after construction with the same parameters, so that no label, model, sample or counter of one run can leak into the next.',
     ['histories'], 'all histories of calls before clear(), for every class offering clear()',
     BASE_TESTS + 'leaked state needs a second run after a first one has populated it.',
     [EX+'manager.py', EX+'partitioned.py', AL], [dict(name='clear methods', where='aideme/**')])
prop('C09', 'Metrics of one iteration never leak into another',
     'Each metrics dictionary yielded by a run contains only metrics logged during that iteration, is never modified by later iterations, and a new run (even after an abandoned one) does not see the metrics of an earlier run.',
     ['histories', 'schedules'], 'all runs, abandoned generators, repeated runs and duplicate-handling modes of the metric log',
     BASE_TESTS + 'needs several iterations or an abandoned generator.',
     [EX+'explore.py', UT+'metric_logger.py'], [dict(name='flush rebinds the metrics dictionary', where=UT+'metric_logger.py')])
prop('C10', 'Exploration loop protocol',
     'An update first records the new labels and then, only in the exploration phase, refits the learner, and counts as exactly one iteration; the initial sampler is used only while positive and negative labels are not both present. When no unlabeled point remains nothing is proposed and the exploration is converged, whatever the user\'s criteria, and any satisfied user criterion also stops it. Callback metrics are computed on the first and then every callback_skip-th iteration, and whenever the run converges. The library criteria stop a run once more updates were made than the given maximum, once no unlabeled point is left, and once the named metric is present and at least the threshold.',
     ['histories', 'configurations'], 'all sequences of updates, label outcomes and settings of sampler, criteria and callback_skip',
     BASE_TESTS + 'no reliable test drives the manager.',
     [EX+'manager.py', EX+'explore.py', UT+'convergence.py'], [dict(name='update / get_next_to_label / converged', where=EX+'manager.py')])
prop('C11', 'Dual-space predictions: polytope first, learner only for the unknown',
     'While its polytope model is valid, a dual-space model returns the polytope\'s own answer for every point the polytope is certain about, and the wrapped learner\'s answer, computed on that same point, for exactly the points it is uncertain about; when the polytope model is invalid all answers come from the wrapped learner. This holds for class labels and for probabilities.',
     ['inputs', 'histories'], 'all batches of points, polytope states and wrapped learners',
     BASE_TESTS + 'no reliable test predicts with a dual-space model.',
     [AL+'dsm/base.py'], [dict(name='predict and predict_proba masks', where=AL+'dsm/base.py')])
prop('C12', 'Polytope model protocol',
     'Every polytope model answers only 0, 0.5 or 1; it answers 0.5 for everything when it is invalid; updating an invalid model raises an error instead of changing it; an update hands the batch to every part that is still valid and reports success exactly when none of them became invalid by it; and once contradictions made a model invalid only clear() makes it valid again. Updating from a data set uses exactly the points of its last labeling with their labels (partial labels for a factorized model).',
     ['inputs', 'histories'], 'every polytope class (convex, flipped, persistent, categorical, multi-set, factorized), all update sequences',
     BASE_TESTS + 'siblings must agree, and invalid states are reached only through contradicting histories.',
     [AL+'dsm/polytope.py', AL+'dsm/model.py'], [dict(name='validity flags', where=AL+'dsm/polytope.py')])
prop('C13', 'Factorized components keep subspaces paired',
     'In every factorized model (subspace learners, factorized polytopes, factorized kernels), the k-th component is trained and queried only on the k-th attribute subset and the k-th column of partial labels, its output lands in the k-th position, and skipping a component never shifts the pairing of the others. Changing the factorization replaces the components to match the new subsets.',
     ['inputs', 'configurations'], 'all partitions (including overlapping or unordered ones), numbers of subspaces, and validity states of components',
     BASE_TESTS + 'a shifted pairing needs several different subspaces, some of them skipped.',
     [AL+'version_space/subspace.py', AL+'dsm/model.py', AL+'kernel.py'], [dict(name='zip/enumerate over partition and components', where=AL+'version_space/subspace.py')])
prop('C14', 'Caller-supplied data is never modified',
     'No public operation modifies arrays, label sets, lists or dictionaries passed in by the caller, neither during the call nor later through a reference it kept, except where documented (a partitioned dataset or run created with copy=False reorders the data it was given, and an indexed dataset is a view of it).',
     ['inputs', 'histories'], 'all public entry points and all aliasing between their arguments and stored state',
     BASE_TESTS + 'tests compare results, not the inputs after the call, and only for two classes.',
     ['aideme'], [dict(name='copies before in-place operations', where='aideme/**')])
prop('C15', 'Independent objects and runs share no mutable state',
     'Two independently created learners, datasets, managers or runs never share mutable state: defaults, class-level tables and module-level tables are never modified, and components built per subspace or per run are distinct objects. The only process-wide state is the metric log and the random generators.',
     ['histories', 'configurations'], 'all interleavings of uses of two objects, all constructor options',
     BASE_TESTS + 'needs two instances in one process.',
     ['aideme'], [dict(name='per-instance allocation', where='aideme/**')])
prop('C16', 'Invalid numeric parameters are rejected at construction',
     'The validation helpers accept exactly the values their names promise (None and infinity only when allowed) and raise ValueError otherwise, and every constructor that documents a positive or non-negative size, rate or tolerance rejects invalid values before the object can be used.',
     ['inputs', 'configurations'], 'all parameter values, all public constructors and factories that validate today',
     BASE_TESTS + 'tests check only the tolerance of hulls and cones.',
     [UT+'validation.py', 'aideme'], [dict(name='assert_* helpers', where=UT+'validation.py')])
prop('C17', 'Named options select what they say, unknown names are rejected',
     'Every documented option name (polytope mode, kernel, connector, loss, prior, sampler, duplicate handling, metric name) selects the implementation documented for it, and any other name raises ValueError instead of silently selecting something or failing later.',
     ['inputs', 'configurations'], 'all option strings',
     BASE_TESTS + 'each option is its own branch and none is exercised by reliable tests.',
     [AL+'dsm/model.py', AL+'kernel.py', AL+'version_space/subspace.py', AL+'version_space/bayesian', UT+'metric_logger.py', UT+'metrics.py'], [dict(name='option dispatch', where='aideme/**')])
prop('C18', 'No result depends on uninitialised memory',
     'Every element of an array allocated without initial values is written before it is read or returned, and element-wise operations restricted by a mask write into an initialised output.',
     ['inputs'], 'all shapes (including empty ones) and masks',
     BASE_TESTS + 'uninitialised memory often happens to contain plausible values.',
     ['aideme'], [dict(name='np.empty allocations and masked ufuncs', where='aideme/**')])
prop('C19', 'Version-space sampling stays inside the version space',
     'The constraints built for sampling say w.x > 0 for positive and w.x < 0 for negative training points; hit-and-run starts only from a point verified (or computed) to satisfy them strictly, and each step moves along a line to a parameter drawn between the two limits at which that line leaves the constraints or the unit ball. Consumers of the samples read the same column order (intercept first) used to build the constraints.',
     ['inputs', 'histories'], 'all training sets, cached samples of earlier iterations, growing dimensions and random directions',
     BASE_TESTS + 'the version space tests do not even import on this tree.',
     [AL+'version_space/hit_and_run/hit_and_run.py', AL+'version_space/hit_and_run/polyhedral_cone.py', AL+'version_space/linear.py'], [dict(name='starting point and line intersection', where=AL+'version_space/hit_and_run/hit_and_run.py')])
prop('C20', 'Kernel diagonal agrees with the kernel matrix',
     'For every kernel, the diagonal computed on its own equals the diagonal of the kernel matrix of the same points, including the default bandwidth and the jitter added to a kernel; jitter is added only on the diagonal, and only when both point sets are the same.',
     ['inputs', 'configurations'], 'all data matrices and kernel parameters',
     BASE_TESTS + 'no reliable test evaluates kernels.',
     [AL+'kernel.py', AL+'version_space/kernel.py'], [dict(name='compute / diagonal pairs', where=AL+'kernel.py')])
prop('C21', 'Classification metrics match their definitions',
     'Every reported classification metric equals its standard definition in terms of true/false positives and negatives (true labels against predictions, class 1 positive), ratios with zero denominator are reported as 0, and each score appears under its own (prefixed) name.',
     ['inputs'], 'all label and prediction vectors, including those with a missing class',
     BASE_TESTS + 'no reliable test computes metrics.',
     [UT+'metrics.py'], [dict(name='metric table over the confusion matrix', where=UT+'metrics.py')])
prop('C22', 'Noise injection respects its contract',
     'Injected noise flips each label independently with the requested probability and nothing else: labels stay 0 or 1, indexes are unchanged, partial labels stay consistent with the flipped label (a point turned positive has all partial labels positive, one turned negative gets a negative partial label, others are unchanged). The original labels are never modified and no noise is added during the skipped initial iterations or the initial sampling phase.',
     ['inputs', 'histories'], 'all label sets, numbers of partitions, noise levels and iteration numbers',
     BASE_TESTS + 'no reliable test injects noise.',
     [UT+'noise.py', EX+'explore.py'], [dict(name='label flipping', where=UT+'noise.py')])
prop('C23', 'Interactive labeling accepts only well-formed answers',
     'The command line exploration only records labels when the user typed exactly one token 0 or 1 per displayed point, attaches them in order to the indexes of the displayed points, and asks again otherwise.',
     ['inputs'], 'all strings a user may type',
     BASE_TESTS + 'nothing tests the command line.',
     [EX+'command_line_explore.py'], [dict(name='input validation loop', where=EX+'command_line_explore.py')])
prop('C24', 'Optimizers start fresh, follow their rule and report the point they computed',
     'Every optimization starts from the given starting point with the algorithm\'s internal state (moments, momentum, counters) reset, performs at most the configured number of iterations, stops earlier only when its convergence test holds, follows the update rule of its algorithm at every iteration (momentum, normalised noise, Adam with bias correction, proximal step, FISTA acceleration; fixed, decaying or line-searched step sizes), and returns an iterate together with the objective value and gradient of that very iterate.',
     ['histories', 'inputs'], 'all optimizers, objectives, batch settings and sequences of optimize calls on one object',
     BASE_TESTS + 'no reliable test runs an optimizer, and stale state needs two runs on one object.',
     [AL+'factorization/optimization.py'], [dict(name='optimize loop and per-algorithm reset', where=AL+'factorization/optimization.py')])
prop('C25', 'Query by disagreement trains on what it documents',
     'The main learner of query-by-disagreement is trained on the user-labeled data only; the two biased learners are trained on the labeled data plus the sampled unlabeled points, with weight 1 on labeled and the configured weight on sampled points, all labeled 1 for the positively and 0 for the negatively biased one, and it never fails because fewer points than requested remain. A point is ranked first exactly when the two biased learners disagree on it.',
     ['inputs', 'histories'], 'all pool sizes relative to the requested background sample',
     BASE_TESTS + 'no reliable test runs this learner; the failure needs a nearly exhausted pool.',
     [AL+'query_by_disagreement.py'], [dict(name='background sample labels and weights', where=AL+'query_by_disagreement.py')])
prop('C26', 'The selected point minimizes the rank',
     'The default selection returns exactly one candidate, whose rank is the minimum over all candidates, chosen at random among ties, and every learner\'s rank is smallest for the points its strategy prefers (closest to the decision boundary, closest to probability one half, or in disagreement).',
     ['inputs'], 'all candidate pools and all rank vectors, including ties',
     BASE_TESTS + 'no reliable test selects points.',
     [AL+'active_learner.py', AL+'uncertainty.py', AL+'margin.py'], [dict(name='arg-min selection', where=AL+'active_learner.py')])
prop('C27', 'Inferred and self-labeled points are always certain',
     'A dual-space model moves a point to the inferred partition, or labels it by itself for training, only when the polytope model is certain about it, and with the polytope\'s own label; while the polytope is valid and unknown points remain, it asks the user only about points the polytope is uncertain about. After every fit that leaves the polytope valid, each unknown point it is certain about is inferred. When a contradiction is found, all inferred points are flushed and self-labeled points no longer certain are dropped with their labels before the model is used again.',
     ['histories', 'inputs'], 'all histories of labelings and contradictions',
     BASE_TESTS + 'needs a contradiction after points have been inferred.',
     [AL+'dsm/base.py'], [dict(name='fit_data and next_points_to_label', where=AL+'dsm/base.py')])
prop('C28', 'Categorical and multi-set polytopes infer soundly',
     'A categorical polytope answers 1 (0) exactly for categories labeled positive (negative) and becomes invalid exactly when a category has both labels. A multi-set polytope (a point is positive when all its items are) answers 1 exactly for non-empty points all of whose items occurred in positive points, 0 exactly when some item must be negative (it is the only item of a negative point not known to be positive), and becomes invalid exactly when no assignment of items explains all labeled points.',
     ['histories', 'inputs'], 'all sequences of labeled points',
     BASE_TESTS + 'no reliable test updates these models.',
     [AL+'dsm/polytope.py'], [dict(name='positive/negative sets and negative point cache', where=AL+'dsm/polytope.py')])
prop('C29', 'Subspace connectors compute the documented function',
     'The label, probability, ranking and loss connectors of factorized learners compute, point by point over all subspaces, exactly the documented function (AND/MIN: minimum, OR/MAX: maximum, PROD: product, SUM: sum, SQUARE: sum of squares, and the documented GREEDY, SQUARE and PRODUCT losses); without a label connector, a point is positive exactly when its probability exceeds one half.',
     ['inputs', 'configurations'], 'all numbers of subspaces and points, all connector options',
     BASE_TESTS + 'an axis or sign error shows only with several subspaces and points.',
     [AL+'version_space/subspace.py'], [dict(name='connector tables', where=AL+'version_space/subspace.py')])
prop('C30', 'Convex regions only claim what convexity implies',
     'Once built, a positive region contains exactly the points satisfying every facet inequality of the hull of all positive points seen so far (up to the tolerance), and a negative cone exactly the points satisfying every inequality of the facets at its negative point; one-dimensional hulls and cones are the closed interval of the points and the closed ray beyond the vertex. A valid polytope answers 1 exactly inside its positive region and 0 exactly inside a negative cone (no point being in both), the flipped polytope does so with the labels exchanged, and a factorized model answers 1 (0) only if all subspace models (some subspace model) do. Every positive point reaches the region and all cones, old and new, and a negative point found inside the hull raises a conflict at construction and at every later update.',
     ['inputs', 'histories'], 'all point sets, update orders and query points',
     'The reliable tests cover a handful of one-dimensional literals only.',
     [AL+'dsm/convex/convex.py', AL+'dsm/convex/one_dim_convex.py', AL+'dsm/convex/geometry.py', AL+'dsm/polytope.py'], [dict(name='is_inside and conflict checks', where=AL+'dsm/convex')])
prop('C31', 'Saved convex hulls restore completely',
     'A convex hull restored from its pickled form has every piece of state the original had: whatever is written when saving is exactly what is read when loading, loading initialises every attribute the class uses, and the points keep their order, so that cones still refer to the right vertex.',
     ['inputs'], 'all hulls, tolerances and states at the time of saving',
     BASE_TESTS + 'pickling of hulls is not among the reliable tests.',
     [AL+'dsm/convex/convex.py'], [dict(name='__getstate__/__setstate__', where=AL+'dsm/convex/convex.py')])
prop('C32', 'Gradients are the derivatives of their losses',
     'Wherever the package hands an optimizer a loss and a gradient written by hand in closed form (regularization penalties, Bayesian logistic losses), the gradient is the exact derivative of that loss at every differentiable point, and a proximal operator uses the same penalty weights as its loss.',
     ['inputs', 'configurations'], 'all weight vectors, data and penalty parameters',
     BASE_TESTS + 'no reliable test evaluates a loss.',
     [AL+'factorization/penalty.py', AL+'version_space/bayesian/laplace.py'], [dict(name='loss/grad/proximal triples', where=AL+'factorization/penalty.py')])
prop('C33', 'Batches stay row-aligned end to end',
     'Whenever points and labels (or points and predictions) are filtered, split, concatenated or cached together, the same selection in the same order is applied to both, so the i-th label always belongs to the i-th point.',
     ['inputs', 'histories'], 'all masks, caches and batch sizes',
     BASE_TESTS + 'misalignment needs batches of several points with mixed labels.',
     [AL+'dsm/base.py', AL+'dsm/polytope.py', AL+'inference/inference.py', EX+'labeledset.py', 'aideme/initial_sampling.py'], [dict(name='paired selections', where='aideme/**')],
     na='decided where each selection has a contract: data set moves and snapshots (C02, C03, C04), label sets (C05), noise (C22), factorized components and caches (C12, C13, C29), polytope batches (C28, C30), learned labels (C27), samplers (C38). As a rule for the whole package it has no oracle: whether two different selections are meant to be paired is not visible in the source, so a lint would either alarm on correct code or repeat those checks.')
NA_NUM = 'quantifies over floating-point values that no static argument in reach can bound: '
prop('C34', 'Copies are faithful and independent',
     'Copying a factorization learner, pruning its irrelevant subspaces, and cloning a kernel transformer or a base learner always succeeds for every optimizer, penalty, bias and kernel setting; the second object has the same parameters and answers every query like the first (a clone like a new, unfitted one), shares no array with it, and refitting or clearing either leaves the other unchanged. Pruning keeps exactly the subspaces that are not always true on the data and whose weights are not negligible, each with its own bias.',
     ['histories', 'inputs'], 'all optimizers, penalties, kernels and later calls on either object',
     BASE_TESTS + 'no reliable test copies a learner; sharing shows only after a later change, and the crash needs a proximal optimizer.',
     [AL+'factorization/linear.py', AL+'factorization/learn.py', AL+'kernel.py', AL+'version_space/subspace.py'], [dict(name='LinearFactorizationLearner.copy', where=AL+'factorization/linear.py'), dict(name='prune_irrelevant_subspaces', where=AL+'factorization/learn.py')])
prop('C35', 'Proximal operators minimise and subgradient tests decide membership',
     'For every penalty with a proximal operator and every weight matrix, step and group structure: proximal(x, eta) is the unique minimiser of penalty(y) + |x - y|^2 / (2 eta), leaves x alone, and is_subgradient accepts a matrix exactly when it lies in the subdifferential of the penalty at the given point (zero rows, zero entries and groups included), also after a learner has handed the penalty to a proximal optimizer. Setting the weight or the groups of a penalty acts like building a new one.',
     ['inputs', 'configurations', 'histories'], 'all weight matrices, penalties, steps, groups and orders of configuration',
     BASE_TESTS + 'no reliable test evaluates a penalty; errors show only at zero rows, with groups, or after reuse.',
     [AL+'factorization/penalty.py'], [dict(name='proximal and is_subgradient', where=AL+'factorization/penalty.py')])
prop('C36', 'Factorization models: loss, gradient, start and predictions belong together',
     'For every data set, factorization, optimizer and penalty, LinearFactorizationLearner and KernelFactorizationLearner minimise the documented mean log-loss plus penalty: the gradient handed to the optimizer is the derivative of the objective handed to it (the penalty being left to the proximal step under a proximal optimizer), the starting point has the shape of the model, attributes outside a subspace keep weight zero, the best of several runs is kept, every mini-batch pairs points with their own labels and an epoch uses each point once, and predictions are those of the fitted weights on the right columns. A second fit depends only on its own data.',
     ['inputs', 'configurations', 'histories'], 'all data sets, factorizations, optimizers, penalties, retries and orders of fits',
     BASE_TESTS + 'no reliable test fits a factorization model; a wrong derivative still converges to something.',
     [AL+'factorization/linear.py', AL+'factorization/kernel.py', AL+'kernel.py'], [dict(name='LinearFactorizationLearner', where=AL+'factorization/linear.py'), dict(name='KernelFactorizationLearner', where=AL+'factorization/kernel.py')])
prop('C37', 'Learned factorizations and partial labels follow from the fitted weights',
     'A factorization computed from relevant attributes is the sorted list of the distinct attribute sets that no other set contains. Relevant attributes of a subspace are exactly those (or the groups) with more than an average share of its absolute weights, and computing them leaves the learner unchanged. Computing factorization and partial labels refines the given model from its own weights on the training set, prunes it on the whole data set, retrains it from the pruned weights with the irrelevant attributes removed, and labels a training point positive for a factor exactly when the product of the probabilities of the subspaces inside that factor, each shared equally between the factors that contain it, exceeds one half.',
     ['inputs', 'configurations'], 'all weights, groups, data sets and relevant-attribute masks',
     BASE_TESTS + 'no reliable test learns a factorization.',
     [AL+'factorization/learn.py'], [dict(name='compute_factorization_and_partial_labels', where=AL+'factorization/learn.py'), dict(name='compute_relevant_attributes', where=AL+'factorization/learn.py')])
prop('C38', 'Initial samples have the requested composition',
     'The stratified sampler answers, on every call, with the requested number of distinct keys of positive points and the requested number of distinct keys of negative points (of points negative in every subspace when that is asked for), as index keys of the labeled set. The random sampler draws the requested number of distinct keys from the unlabeled points, and the fixed sampler returns the given keys.',
     ['inputs', 'configurations'], 'all labeled sets, index keys, sizes and data sets',
     BASE_TESTS + 'the samplers are random, their pools only show in the choice of points.',
     ['aideme/initial_sampling.py'], [dict(name='stratified_sampler', where='aideme/initial_sampling.py'), dict(name='random_sampler', where='aideme/initial_sampling.py')])
prop('C39', 'The metric log combines values as requested and times exactly the wrapped call',
     "Logging a metric replaces ('overwrite', the default), adds to ('sum') or appends to ('append') the value logged under the key since the last flush, whatever the case of the option and for single metrics and dictionaries alike; other keys keep their values, flush() empties the log and an unknown option is refused without changing it. log_execution_time calls the function once with its arguments, returns its result and logs under its key, with its own strategy, the time that passed during the call.",
     ['inputs', 'histories'], 'all keys, values and sequences of calls',
     BASE_TESTS + 'metrics are not tested at all.',
     [UT+'metric_logger.py'], [dict(name='log_metric', where=UT+'metric_logger.py'), dict(name='log_execution_time', where=UT+'metric_logger.py'), dict(name='flush', where=UT+'metric_logger.py')])
prop('C40', 'Hit-and-run samples are uniform over the version space',
     'The distribution of the samples converges to the uniform distribution over the version space.',
     ['inputs'], 'all training sets', 'statistical property', [AL+'version_space/hit_and_run'], [dict(name='hit-and-run chain', where=AL+'version_space/hit_and_run/hit_and_run.py')],
     na='a statement about a limit distribution of a Markov chain; its structural necessary conditions (interior start, step limits) are claimed as C19.')
prop('C41', 'Rounding ellipsoids contain the version space and shrink',
     'Every cut of the rounding algorithm yields an ellipsoid that contains the version space and has smaller volume, and the algorithm terminates with a well-rounded body.',
     ['inputs'], 'all cuts', 'numerical property', [AL+'version_space/hit_and_run/ellipsoid.py', AL+'version_space/hit_and_run/rounding.py'], [dict(name='deep cut update', where=AL+'version_space/hit_and_run/ellipsoid.py')],
     na=NA_NUM+'containment and volume of an LDL^T-updated ellipsoid after rounding errors.')
prop('C42', 'Optimizers converge to a stationary point',
     'Gradient descent, Adam, Noisy SGD and FISTA end near a minimizer of the objective when step sizes are suitable.',
     ['inputs'], 'all objectives', 'numerical property', [AL+'factorization/optimization.py'], [dict(name='advance', where=AL+'factorization/optimization.py')],
     na=NA_NUM+'convergence depends on curvature, step size and noise. Structural clauses are claimed as C24.')
prop('C43', 'Learned factorizations approach the user interest',
     'The accuracy of learners and of learned partitions improves as labels are added.',
     ['histories'], 'all data sets', 'statistical property', [AL], [dict(name='learning', where=AL)],
     na='a statistical statement about data-dependent accuracy; nothing in the shape of the code decides it.')
prop('C44', 'Native loss kernels equal their definitions',
     'The compiled kernels compute their definitions: the log probability of a point is the sum over its margins of log(1 / (1 + exp(-margin))); the loss is the mean over the points of minus the log probability (label 1) or minus the log of the complementary probability (label 0); the Huber penalty is half the square up to delta and linear with slope delta beyond it, times the penalty. They do so for every shape and value, stay finite for confident predictions, never access memory outside their arguments and never change them.',
     ['inputs'], 'all array shapes, margins and weights; labels 0 or 1',
     BASE_TESTS + 'the kernels are compiled with bounds checks off, so a wrong index is silent, and both branches of the stable logarithms agree except at extreme margins.',
     [AL+'factorization/utils.pyx'], [dict(name='compute_loss', where=AL+'factorization/utils.pyx'), dict(name='compute_log_probas', where=AL+'factorization/utils.pyx'), dict(name='compute_huber_penalty', where=AL+'factorization/utils.pyx')])
prop('C45', 'Training time per iteration is bounded',
     'Every iteration of an exploration ends within interactive time.',
     ['schedules'], 'all runs', 'timing', [UT+'metric_logger.py'], [dict(name='log_execution_time', where=UT+'metric_logger.py')],
     na='timing is a run-time quantity. What the timing decorator logs is claimed as C39.')

prop('C46', 'Kernel transformers map points to their kernel with the last fitted points',
     'A kernel transformer obtained for a kernel name and parameters maps a point set to the kernel those parameters define, evaluated between each of its points and each point of the most recent fit, one column per fitted point; fit_transform is a fit followed by a transform and adds the jitter to the diagonal. The Nystroem variant approximates the same kernel: it is built with exactly the given settings and refitted on every fit. Over a factorization, transforming works and has the columns of the fit whatever the number of fitted points, including fewer points than requested components.',
     ['inputs', 'histories', 'configurations'], 'all point sets, kernel names, parameters, jitters and numbers of components; all sequences of fits and transforms',
     BASE_TESTS + 'no reliable test builds a kernel transformer; a stale fit or a dropped parameter only changes numbers.',
     [AL+'kernel.py', AL+'factorization/kernel.py'], [dict(name='KernelTransformer.get, fit and transform', where=AL+'kernel.py')])


# ------------------------------------------------------------------ claimed: technique and note
AI = 'static analysis: abstract interpretation of the source from an arbitrary symbolic state (value-numbering terms + linear-inequality domain, path-partitioned); no execution, no solver; '
NOTE = 'Decided from the syntax tree of the current /repo source on every run. Constructs outside the modelled subset are listed as undecided in the evidence and never reported as violations.'
TECH = {
    'C01': 'static analysis: custom type-directed lint (scope, import, attribute, call-signature and initialisation-order resolution over syntax trees and library stubs)',
    'C02': AI + 'loops cut at an inductive class invariant',
    'C03': AI + 'loops cut at an inductive class invariant, coherence of swaps on arbitrary rows',
    'C04': AI + 'loops cut at an inductive class invariant, row-wise label/row relation',
    'C05': AI + 'row-wise relation between returned labels, indexes and dataset rows, alias check',
    'C16': AI + 'value domain of every validated parameter partitioned into abstract classes',
    'C17': AI + "option strings enumerated by name plus one symbolic 'any other string' class per dispatch",
    'C21': AI + 'score terms over confusion-matrix cells compared in normal form with the definitions',
    'C29': AI + 'per-point terms over opaque subspace learners compared in normal form with the documented connectors',
    'C20': AI + 'entries of kernel matrices as scalar terms with explicit sums in normal form',
    'C32': AI + 'symbolic derivative of loss terms compared in normal form with gradient terms; proximal optimality condition',
    'C09': AI + 'inductive summary of the exploration loop; allocation and mutation events of the metric log',
    'C10': AI + 'call traces on opaque parties with path conditions, compared with the protocol in every situation; inductive summary of the loop',
    'C22': AI + 'row-wise label and partial-label terms compared with the contract over positions of the draw; mutation events; loop traces',
    'C25': AI + 'terms of every fit call at the time of the call compared row by row with the documented training set',
    'C11': AI + 'per-row answers over opaque polytope and learner evaluated for every polytope answer',
    'C27': AI + 'selections and their masks over opaque polytope answers, call traces, inductive summary of the selection loop',
    'C28': AI + 'extracted transfer functions of the categorical and multi-set polytopes (set terms of one labeled point and of the end of a batch) evaluated on all reachable abstract states over three items',
    'C12': AI + 'per-class evaluation of answers, updates and resets over all validity combinations of opaque parts (structural induction), conflicts injected at every call of a region',
    'C13': AI + 'abstract interpretation of the factorized models with opaque components; every call and output slot compared with its partition index',
    'C30': AI + 'abstract interpretation of hulls, cones and polytopes over symbolic point batches; membership normal forms over facets / interval ends',
    'C31': AI + 'abstract interpretation of saving and loading; attribute-wise comparison of the restored with the original state',
    'C08': AI + 'havoc of all run state followed by an abstract clear(), heap comparison with the constructed object; typestate of runs (cleared before first use)',
    'C06': AI + 'provenance (taint) of proposed points over all paths, selector agreement of data and index',
    'C14': AI + 'effect and alias analysis (views traced to the owning memory) over every public call by abstract interpretation, including later calls on objects that keep a reference',
    'C15': AI + 'effect analysis of every public call against process-wide objects, heap disjointness of two abstract instances, distinctness of per-subspace components',
    'C07': AI + 'every public call executed abstractly, each random draw attributed to its generator; two runs over opaque components for the seeding order',
    'C26': AI + 'normal form of the selected row and of every rank compared with the documented preference on witness assignments',
    'C23': AI + 'bounded-loop symbolic paths of the question loops, path conditions evaluated on answer scripts',
    'C19': AI + 'symbolic paths of the sampler with random draws, linear program and rounding as inputs, evaluated on small assignments',
    'C24': AI + 'symbolic execution of one to four iterations with an opaque objective, iterates compared with the reference rule on assignments',
    'C34': AI + 'symbolic execution of copies and clones: answers compared as terms, heap arrays shared, later operations on either side',
    'C35': AI + 'symbolic terms of proximal, loss and subgradient test evaluated against closed-form definitions on assignments',
    'C36': AI + 'objective and gradient executed symbolically and compared by central differences on assignments; epochs, retries and refits as terms',
    'C37': AI + 'every 0/1 matrix enumerated on the extracted function; the training procedure executed symbolically and compared on assignments',
    'C18': 'definite-initialisation dataflow over the syntax trees of all Python and Cython functions: index sets of the stores against the shape of the allocation, along every path',
    'C44': AI + 'Cython source read as a syntax tree and abstractly interpreted on symbolic matrices; log/exp normal forms per path compared with the definitions, index ranges, definite initialisation and effects',
    'C38': AI + 'pools, sizes and repetition of every random draw of the samplers extracted symbolically; masks evaluated for every label combination',
    'C39': AI + 'the public log functions executed abstractly on sequences of values for every strategy; clock readings ordered against the wrapped call',
    'C46': AI + 'fit / transform histories on symbolic point sets, entries and library settings compared with the definition of the kernel',
}
for p in P:
    if p['id'] in TECH and not p['na']:
        p['technique'], p['note'] = TECH[p['id']], NOTE
