"""Writes /verif/properties.jsonl (run after editing; the jsonl is the committed truth)."""
import json, pathlib
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

ECC="medil/ecc_algorithms.py"; GR="medil/graph.py"; MO="medil/models.py"; SA="medil/sample.py"
IT="medil/independence_testing.py"; EV="medil/evaluate.py"; VA="medil/vae.py"; VI="medil/visualize.py"

p("C01", "Minimum clique cover reproduces exactly the given dependence graph",
  "For every undirected graph, however it is encoded (boolean or 0/1 entries, ones or zeros on the diagonal), the structure found by the edge clique cover search induces exactly that graph: two different measurement variables share a latent variable if and only if they are adjacent. Every measurement variable, isolated ones included, has at least one latent, no latent is without measurement variables, and the answer is a boolean matrix with one column per measurement variable.",
  ["inputs"], "all undirected graphs on at least one measurement variable, of any size, density, labelling and encoding",
  "Tests compare the cover for seven hand-picked graphs and one assertion on random graphs is a tautology (a density compared with itself); dense graphs, where the search has to branch repeatedly and reductions interact, are never looked at.",
  [ECC, GR], [("find_clique_min_cover / branch / greedy_cover / add_isolated_verts", ECC), ("rule_1, rule_2, rule_3, reconstruct_cover, cover_edges", GR)],
  ["return value of find_clique_min_cover"])
p("C02", "The clique cover found has the minimum number of latents",
  "Unless a warning says that the search was cut short, no structure inducing the same dependence graph has fewer latent variables than the one returned (isolated measurement variables counting one latent each); for graphs on at most eight measurement variables such a warning never occurs. Consequently the number of latents does not depend on how the measurement variables are labelled or the graph is encoded.",
  ["inputs"], "all undirected graphs",
  "Minimality quantifies over all alternative covers; the tests fix the expected size for seven graphs.",
  [ECC, GR], [("iterative deepening in find_clique_min_cover / branch", ECC), ("reduzieren, rule_1..3, choose_nbrhood", GR)],
  ["return value of find_clique_min_cover", "warnings emitted"])
p("C03", "Clique enumeration yields every maximal clique exactly once",
  "For every undirected graph given as an adjacency matrix, the clique enumerator yields each maximal clique exactly once and nothing else, with distinct valid vertices in each clique, whatever is on the diagonal; an empty graph without vertices yields nothing. It terminates, and it leaves the matrix unchanged.",
  ["inputs"], "all undirected graphs",
  "No test calls the enumerator; the cover tests only exercise it on neighbourhoods with a handful of cliques.",
  [ECC], [("max_cliques", ECC)], ["values yielded by max_cliques"])
p("C04", "One-pure-child heuristic: sound structure for every dependence graph",
  "For every undirected graph, the one-pure-child heuristic terminates with a structure in which any two adjacent measurement variables share a latent, every measurement variable has a latent, and every latent has at least one pure child (a measurement variable with no other latent). The number of latents equals the size of a largest set of mutually non-adjacent measurement variables.",
  ["inputs"], "all undirected graphs, whatever is on the diagonal",
  "No test calls it directly; fitting tests reach it with two easy graphs that the initial neighbourhoods already cover.",
  [ECC], [("find_heuristic_1pc: maximum independent set, growth, uncovered-edge queue", ECC)], ["return value of find_heuristic_1pc"])
p("C05", "One-pure-child structures are recovered exactly from their graph",
  "If every latent of a structure has a pure child and every measurement variable has a latent, then the one-pure-child heuristic applied to the dependence graph induced by that structure returns that very structure, up to the order of the latents, and the minimum clique cover of the graph has the same number of latents.",
  ["inputs"], "all structures satisfying the one-pure-child condition, with any order of measurement variables and latents",
  "The tests look at two such structures, within noisy fits.",
  [ECC, SA], [("find_heuristic_1pc", ECC), ("find_clique_min_cover", ECC), ("biadj", SA)], ["return values of biadj, find_heuristic_1pc, find_clique_min_cover"])
p("C06", "Random one-pure-child structures meet their specification",
  "A randomly generated one-pure-child structure has the requested number of measurement variables and latents (if none is requested, any number between one and the number of measurement variables minus one), gives every latent a pure child and every measurement variable a latent, and, for a requested density d, contains exactly round(d * (M - L) * (L - 1)) connections beyond the M necessary ones. Neither latents nor measurement variables are privileged: all latents are equally likely to be connected to any measurement variable, and every measurement variable is equally likely to be a guaranteed pure child. Which latents a measurement variable with several of them has doesn't depend on those of another one, and the additional connections are drawn from all sets of connections with equal probability, so that numbers of latents vary accordingly.",
  ["inputs", "configurations"], "all numbers of at least two measurement variables, densities in [0, 1] or unspecified, and random generators",
  "Tests draw a few structures from one seed and check only that columns and rows are nonempty; uniformity and edge counts are statements about the whole distribution.",
  [SA], [("biadj with one_pure_child=True", SA)], ["return value of biadj"])
p("C07", "Random structures from random graphs have the requested density",
  "A structure generated without the one-pure-child condition induces a dependence graph with exactly round(density * M * (M - 1) / 2) edges, covers every measurement variable, has no redundant latent (removing any latent loses a dependence or a variable), and asking for a number of latents together with this option is rejected. All pairs of measurement variables are equally likely to be dependent.",
  ["inputs", "configurations"], "all numbers of variables, densities in [0, 1] and random generators",
  "The test of the density compares a variable with itself, so it can never fail; randomness quantifies over the whole distribution.",
  [SA, ECC], [("biadj with one_pure_child=False", SA), ("find_clique_min_cover", ECC)], ["return value of biadj"])
p("C08", "Random model parameters respect the structure and their ranges",
  "A randomly generated linear Gaussian model has the structure it was given (or one generated with exactly the options it was given), weights that are zero exactly where the structure has no connection, and otherwise absolute weights in [0.5, 2], absolute error means in [0, 2] and error variances in [0.5, 2]. Absolute values are drawn independently and uniformly from these ranges, weights and means are equally likely to be positive or negative, and a structure given with 0/1 entries means the same as one given with booleans.",
  ["inputs", "configurations"], "all structures, generation options and random generators",
  "One model is drawn from one seed in the tests, and only zero versus nonzero is checked.",
  [SA, MO], [("mcm", SA), ("GaussianMCM, Parameters", MO)], ["return value of mcm"])
p("C09", "Random generation is determined by the given generator alone",
  "Generating structures, generating models and sampling from models with explicitly given random generators gives identical results for identically seeded generators and arguments, whatever else has happened in the process before or in between (other models, global random state, default generators), and different results for different seeds. None of this changes the global random state of NumPy or PyTorch, and repeated draws from the same generator differ.",
  ["histories", "inputs"], "all seeds, arguments, and interleavings with other operations",
  "The tests use the shared default generators throughout and never compare two runs.",
  [SA, MO], [("rng parameters of mcm, biadj, MedilCausalModel", SA), ("GaussianMCM.sample", MO)], ["return values of mcm, biadj, GaussianMCM.sample, global generator states"])
p("C10", "Samples of a linear Gaussian model follow the model's distribution",
  "A sample of size n from a linear Gaussian model is an n by M array of independent observations, jointly Gaussian with mean equal to the error means and covariance equal to (weights transposed times weights) plus the diagonal matrix of error variances. In particular, with all error variances zero, every observation minus the means is a linear combination of the weight rows, and variables with zero variance and no weights are constant; different calls give independent samples.",
  ["inputs"], "all structures and parameters, including zero variances and zero weights, and all sample sizes",
  "Tests compare only the sample mean in two zero-mean models; covariance, signs, Gaussianity and independence are not looked at.",
  [MO], [("GaussianMCM.sample", MO)], ["return value of GaussianMCM.sample"])
p("C11", "Fitted Gaussian parameters are the least squares estimate",
  "Fitting a linear Gaussian model to a dataset gives error means equal to the column means, weights that are zero wherever the structure has no connection, nonnegative error variances, and a model covariance whose squared distance to the sample covariance (unbiased) is as small as the structure allows (up to the accuracy of the optimizer and, rarely, a local minimum), whatever the unit of measurement of the dataset. If the structure can reproduce the sample covariance exactly, the fit does so up to numerical accuracy.",
  ["inputs"], "all datasets with more than one observation (any common scale) and all structures",
  "Two fits with 10000 observations near the starting point of the optimizer are tested, with tolerances up to 0.7.",
  [MO], [("GaussianMCM.fit: objective, bounds, minimize, unpacking", MO)], ["parameters after GaussianMCM.fit"])
p("C12", "Gaussian dependence estimation is the BIC rule on correlations",
  "The dependence graph learned when fitting a linear Gaussian model without given structure is a symmetric boolean matrix without self-dependences in which two variables are dependent exactly if -n log(1 - r^2) exceeds log n, for sample size n and their sample correlation r. Hence it is unaffected by shifting, rescaling or flipping the sign of variables and by reordering observations, and reordering variables reorders it correspondingly.",
  ["inputs"], "all datasets of at least two variables that are not constant, of any size, scale and order",
  "Two well-separated datasets with nearly unit variances are tested, for which a wrong criterion gives the same graph.",
  [MO], [("GaussianMCM._estimate_udg", MO)], ["udg attribute after GaussianMCM.fit"])
p("C13", "Fitting respects given knowledge and never alters its inputs",
  "If a structure is given, fitting keeps it and only estimates parameters; if only a dependence graph is given, the structure is the one-pure-child structure of that graph; otherwise both are learned from the data. The dataset and the given matrices are left unchanged, fitting returns the model itself, and fitting the same model again to another dataset gives the same parameters as a new model with the same structure would get from it, independently of other models.",
  ["histories", "inputs"], "all datasets, all combinations of given knowledge, all sequences of fits of several models",
  "The tests fit each model once, without given knowledge, and do not look at the inputs afterwards.",
  [MO], [("GaussianMCM.fit, _compute_biadj", MO), ("MedilCausalModel.__init__", MO)], ["attributes of the model and bytes of the inputs before and after GaussianMCM.fit"])
p("C14", "Generating, sampling and refitting recovers a Gaussian model",
  "For a random one-pure-child linear Gaussian model whose dependences are clearly visible, fitting a new model to a large sample recovers its dependence graph in nearly all cases; whenever it does, the recovered structure equals the true one up to the order of the latents, and the fitted means and covariance agree with the true ones up to sampling error. The distances between fitted and true structure are then zero.",
  ["inputs", "configurations"], "all random models with clearly nonzero correlations, sample sizes in the ten thousands",
  "Two fixed structures are tested; consistency is a statement about all models.",
  [MO, SA, ECC, EV], [("mcm", SA), ("GaussianMCM.sample / fit", MO), ("find_heuristic_1pc", ECC), ("sfd", EV)], ["model attributes after fit", "return value of sfd"])
p("C15", "Nonparametric dependence estimation decides every pair consistently",
  "For every method (fast distance covariance, distance correlation t-test, xi correlation, or given p-values) and significance level, the estimated dependence graph is a symmetric boolean matrix without self-dependences. For the tests giving p-values, the matrix of p-values is symmetric, its entry for a pair i < j is the p-value of that test on exactly columns i and j in that order, and two variables are dependent exactly if their p-value is below the significance level; for the fast method exactly if n times the squared sample distance covariance over the product of the mean distances is at least the upper quantile of the chi-squared distribution with one degree of freedom. A pair with an undefined p-value or statistic, as for a constant second variable, counts as independent.",
  ["inputs", "configurations"], "all datasets, numbers of variables (in particular more pairs than are handed to a worker at a time), methods, significance levels",
  "The only test of this module is empty.",
  [IT], [("estimate_UDG: pairing, pool, thresholds", IT), ("dcor_test, xicor_test", IT)], ["return value of estimate_UDG"])
p("C16", "Parallel dependence tests are schedule-independent and fail loudly",
  "The result of the dependence tests run in parallel does not depend on the number of worker processes or on how long individual tests take, and equals that of running them one after another. A test that fails in a worker makes the call fail instead of yielding a result, and no worker process is left behind in either case.",
  ["schedules", "fault_sequences"], "all numbers of workers, all delays and orders of completion of tests, failures of any one test",
  "No test runs the parallel code.",
  [IT], [("Pool and imap in estimate_UDG", IT)], ["return value or exception of estimate_UDG", "child processes"])
p("C17", "Sample distance covariance matrix is correct",
  "For every dataset with at least two observations, the distance covariance matrix contains the squared sample distance covariance (V-statistic) of every pair of variables, and the accompanying vector the mean absolute difference over all ordered pairs of observations of every variable. Hence the matrix is symmetric, nonnegative, unaffected by shifts, reflections and reordering of observations, scales linearly in the scale of each variable, and is zero for constant variables.",
  ["inputs"], "all real datasets, including ties, constants, large offsets and small samples",
  "No test calls it.",
  [IT], [("dcov", IT)], ["return value of dcov"])
p("C18", "Xi correlation coefficient and p-value are correct, ties included",
  "For every two sequences of equal length (without ties in the first one), the xi correlation is Chatterjee's coefficient: one minus n times the sum of absolute differences of consecutive maximal ranks of the second sequence in the order of the first, over twice the sum of l(n - l) for the counts l of greater or equal values. Its p-value is the upper tail probability of the asymptotic normal distribution under independence, with variance 2/5 if ties are declared absent and the tie-corrected estimate otherwise; unequal lengths are rejected, empty sequences give NaN, and increasing transformations of either sequence and joint reordering change nothing.",
  ["inputs"], "all pairs of sequences, continuous or discrete",
  "No test calls it.",
  [IT], [("_xicorr, xicorr", IT)], ["return value of xicorr"])
p("C19", "Independence tests are calibrated and have power",
  "For mutually independent variables, continuous or discrete, each dependence estimation method declares pairs dependent at a rate of at most the significance level, up to the accuracy of its asymptotics and of the experiment, and p-values of the tests giving them are not concentrated near zero. For variables related by a noiseless or nearly noiseless functional relationship, including non-monotone ones, pairs are declared dependent practically always with a few hundred observations.",
  ["inputs"], "all distributions of the variables",
  "It is a statement about frequencies over datasets; the only test of this module is empty.",
  [IT], [("estimate_UDG", IT), ("dcov", IT), ("xicorr", IT)], ["return value of estimate_UDG"])
p("C20", "Structural distances are correct distances between structures",
  "The squared Frobenius distance of two structures is the sum of squared differences of their weighted dependence graphs (numbers of shared latents, diagonal included), and the structural Hamming distance is the number of pairs of different measurement variables dependent in exactly one of them. Both are symmetric, zero for structures that agree up to the order of latents and childless latents, independent of the numeric encoding and of relabelling measurement variables in both, satisfy the triangle inequality (the former after taking the root), and computing them changes neither structure.",
  ["inputs"], "all pairs of structures over the same measurement variables, with any numbers of latents",
  "Three pairs of structures are tested.",
  [EV], [("sfd, recover_ug", EV)], ["return values of sfd and recover_ug"])
p("C21", "Permutation distances find the best matching of latents",
  "The permutation-minimal distance between predicted and true weights is the minimum, over all orders of the predicted latents, of the squared distance to the true weights padded with zero rows, and the returned permutation is a permutation attaining it; the variant for absolute weights does the same for absolute values and so ignores all signs. Neither depends on the order of the predicted latents or on the (signed integer or floating point) type of the arrays, and neither array is changed.",
  ["inputs"], "all pairs of weight matrices with at most as many true as predicted latents",
  "No test calls these functions.",
  [EV], [("min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs", EV)], ["return values"])
p("C22", "Neural training uses every observation exactly as it should",
  "In every training epoch, in training mode, each standardized observation of the training split is used exactly once, one optimizer step per batch; the validation split is evaluated in evaluation mode once after every epoch, changes no parameter and never enters a gradient. The splits are disjoint and exhaustive (70 to 30 percent unless given explicitly, in which case they are exactly the given ones), and the number of epochs, the batch size and the learning rate, which is reduced by a tenth every 50 epochs, are the configured ones.",
  ["histories", "configurations"], "all datasets, splits, epochs, batch sizes, architectures and seeds",
  "One training run with default settings is tested, for not raising an exception.",
  [MO, VA], [("fit, _data_loader, _train_vae, _valid_vae", MO)], ["forward passes and optimizer steps during fit"])
p("C23", "Training artifacts are complete, faithful and confined to the given directory",
  "After training, the given directory (with or without trailing slash) contains the trained model, the loss and error histories and the training log, nothing is written elsewhere, and reloading gives exactly the model and histories kept in memory, whose coupling weights are those of the model. The log records the number of trainable parameters and, per epoch and in order, start, training loss and validation loss, equal to the recorded histories; entries of earlier runs are kept. If training fails or is interrupted part way, previously saved artifacts and previously fitted results stay as they were.",
  ["crash_points", "histories", "configurations"], "all directories, configurations, sequences of fits, and points of interruption during training",
  "The tests never look at the files.",
  [MO], [("fit, log, __init__", MO)], ["files in and outside the directory", "model attributes"])
p("C24", "Neural training is reproducible from its seed",
  "Training with the same seed, settings and dataset gives identical losses and parameters, regardless of the global random state, of previous training runs, of the output directory and of verbosity; different seeds give different results. A split given explicitly is used as it is, whatever the seed.",
  ["histories", "inputs"], "all seeds, datasets, settings and histories of the process",
  "One training run is tested.",
  [MO], [("seeding in fit", MO)], ["loss and parameters after fit"])
p("C25", "The decoder keeps measurement variables separate, and all of it is trained",
  "Apart from the shared latents, the decoder computes each mean and each variance of each measurement variable separately: no trainable weight of the decoder influences more than one of these outputs, before, during and after training, and each output depends on all latents through the configured number and width of hidden layers. Every decoder weight that influences an output is changed by training, and the saved parameters determine the decoder.",
  ["configurations", "histories"], "all numbers of measurement variables, layers and widths, all datasets and training lengths",
  "No test looks at the network; one training run with default settings is tested for not raising an exception.",
  [VA, MO], [("SparseLinear masks, Decoder", VA), ("_train_vae", MO)], ["gradients of decoder outputs with respect to parameters", "parameters before and after fit"])
p("C26", "The optimized and recorded training objective is the documented one",
  "Recorded validation losses are the negative evidence lower bound of the Gaussian model (half the sum of log determinant of the batch covariance and Mahalanobis distances, plus beta times the Kullback-Leibler divergence of the latents) and recorded training losses add lambda times the nuclear norm plus mu times the absolute sum of the coupling weights, per observation and averaged over batches; recorded errors are the spectral norms of the residuals per observation, averaged likewise. The gradient used by each optimizer step is that of this training loss on the current batch alone. Latents are sampled from the encoded normal distribution in training mode and equal its mean in evaluation mode.",
  ["histories", "configurations"], "all batches of all training runs, all hyperparameters",
  "The test asserts nothing about losses.",
  [MO, VA], [("_elbo_gaussian, _recon_error, _train_vae, _valid_vae", MO), ("latent_sample", VA)], ["inputs and outputs of forward passes, gradients at optimizer steps, recorded losses"])
p("C27", "Penalized estimators report and sample from what they optimized",
  "After penalized maximum likelihood or least squares fitting, the reported weights (M latents, or floor(M^2/4) without the one-pure-child assumption) and nonnegative error variances attain the reported objective, validating on the training data returns exactly that, and it is (apart from rare early stops of the optimizer at points without derivative) a local minimum of the documented penalized objective. Sampling is refused before fitting by the respective method and afterwards follows the distribution given by the estimates; what is told about convergence is what the optimizer reported, penalties are 0.1 unless given, unknown methods are rejected, and results depend on the data and the given random generator only.",
  ["inputs", "histories"], "all datasets, penalties, methods and generators",
  "No test covers these estimators.",
  [MO], [("DevMedil", MO)], ["attributes after fit, return values of validation_mle, validation_lse and sample"])
p("C28", "Visualizations show exactly the given graph or data",
  "Every plotting function draws what it was given: the image of the observed graph has ones exactly for pairs sharing a latent, the image of a dependence matrix shows its values (or which of them exceed the threshold) with each label at its own cell, the causal graph has one arrow per connection from that latent to that measurement variable and no other, with all nodes labelled, and pairwise plots show every (or the first 1000) observation. Inputs are left unchanged.",
  ["inputs"], "all structures, matrices, samples and options",
  "No test covers visualization.",
  [VI], [("show_obs_adj_mat, show_obs_dcor_mat, show_dag, get_dag_from_biadj, show_pairwise_plot", VI)], ["artists of the resulting figures"])
p("C29", "Graph data structure stays consistent under edits, copies and export",
  "After any sequence of edge additions and removals the graph's adjacency matrix is symmetric and its number of edges is right; the auxiliary structure lists, for every edge, exactly the common neighbours (both ends included) and the number of edges among them, and nothing for non-edges, and edge numbering and its inverse agree. Reducing or editing a reducible copy never affects the original or other copies, resetting restores the initial state, and an exported file describes exactly the same graph.",
  ["histories", "inputs"], "all graphs and sequences of operations",
  "The tests check the auxiliary structure of one graph and single operations on four.",
  [GR], [("add_edges, rm_edges, make_aux, reducible_copy, reset, convert_to_nde", GR)], ["attributes of graph objects after each operation", "exported files"])
p("C30", "Reduction rules preserve exactly what remains to be covered",
  "At every point of a reduction, every edge of the original graph is either covered by a clique chosen so far, still marked as uncovered, or incident to a vertex set aside for reconstruction, every chosen set is a clique of the original graph, and edge counts and neighbourhoods of the remaining vertices agree with the original graph restricted to them. The number of chosen cliques equals the decrease of the budget, reconstruction after complete reduction yields a cover of the whole graph by cliques, and the number of cliques chosen plus the minimum number still needed for the uncovered edges is the minimum for the original graph.",
  ["inputs", "histories"], "all graphs and all sequences of rule applications",
  "Each rule is tested on one graph.",
  [GR, ECC], [("rule_1, rule_2, rule_3, reduzieren, cover_edges, reconstruct_cover, choose_nbrhood", GR)], ["attributes of the reducible graph after each rule application"])
p("C31", "Computations on regular data are numerically clean",
  "On finite, non-degenerate datasets, whatever their common scale, offset and number of variables (for the penalized estimators at about unit scale), structure learning, parameter fitting, sampling, evaluation, independence testing and neural training neither divide by zero, overflow nor produce NaN or infinite values, and all resulting parameters, losses and test results are finite.",
  ["inputs", "configurations"], "all finite datasets without constant or duplicated variables, common scales between 1e-6 and 1e6 and offsets of moderately many standard deviations",
  "The tests use a few datasets near unit scale and do not look for floating-point faults.",
  [MO, IT, EV, SA, VA], [("all numerical code", "medil/")], ["floating-point exceptions, warnings and results of all public operations"])
p("C32", "Library calls leave their arguments and defaults alone",
  "No public operation of structure learning, generation, sampling, fitting, testing or evaluation changes the arrays passed to it. Default arguments, other models and results of earlier calls stay as they were, however many operations follow.",
  ["histories"], "all sequences of public operations",
  "Tests construct fresh inputs for every call and never look at them afterwards.",
  ["medil/"], [("copies made by each operation", "medil/")], ["bytes of arguments, defaults and earlier results before and after every call"])
p("C33", "Requests that can't be met are refused and leave no traces",
  "Asking for something that can't be done raises an exception instead of giving some result: random models with an unknown parameterization (ValueError) or a neural one (NotImplementedError), a number of latents together with structures without pure children (ValueError) or one that is negative or exceeds the number of variables, fitting or sampling the base class or sampling a neural model (NotImplementedError), sampling or validating before fitting, unknown penalized methods (ValueError) or independence tests, xi correlation of sequences of different lengths (ValueError), datasets whose variables don't match the given or fitted structure or graph, distances between structures or weights over different numbers (at least two) of variables or with more true than predicted latents, and neural training with impossible splits, batch sizes, learning rates or data. Whether a request is refused this way or a fit of a Gaussian model is interrupted in its optimizer, arguments, fitted structures and parameters and saved artifacts stay as they were, and the models behave as if the request hadn't been made.",
  ["inputs", "histories", "fault_sequences"], "all impossible requests of the listed kinds, in every state of the models involved, and interruptions at any point of the optimization",
  "The tests make only requests that succeed.",
  ["medil/"], [("argument checks and order of assignments", "medil/")], ["exceptions of public operations", "models, arguments and files before and after"])
p("C34", "Nonlinear structures are recovered without parametric assumptions",
  "For data generated by nonlinear monotone functions of the latents of a structure in which every latent has a pure child and dependences are strong, nonparametric dependence estimation with a small significance level finds nearly all dependences and hardly any others; whenever its graph is the true one, the one-pure-child heuristic recovers the structure up to the order of latents, with distances zero, and the minimum clique cover has the same number of latents. A neural model's structure learning uses its configured method and significance level, or the given graph, in just this way.",
  ["inputs", "configurations"], "all one-pure-child structures, monotone functions, scales and methods, a few hundred observations or more",
  "No test runs the nonparametric estimation or combines it with structure learning.",
  [IT, ECC, EV, MO], [("estimate_UDG", IT), ("find_heuristic_1pc, find_clique_min_cover", ECC), ("NeuroCausalFactorAnalysis._compute_biadj, _estimate_udg", MO), ("sfd", EV)], ["return values of estimate_UDG, find_heuristic_1pc and sfd, attributes of the model"])
p("C35", "Operations on separate data can run in concurrent threads",
  "Structure learning, generation and sampling with separate random generators, fitting of separate Gaussian and penalized models, evaluation, and the independence tests that don't start processes give the same results when several threads run them at the same time as when they are run one after the other, however the threads are interleaved.",
  ["schedules"], "all interleavings of threads working on separate arguments",
  "The tests run everything in one thread.",
  ["medil/"], [("state is kept in local variables and model attributes only", "medil/")], ["return values of public operations in concurrent threads"])
p("C36", "Models can be copied, saved and loaded at any time",
  "A linear Gaussian, penalized or neural model can be deeply copied, or pickled and loaded again (also in another process), at any point of its history. The copy has the same structure, parameters, settings, losses and state of its random generator, so that it continues exactly like the original would have: equal samples, fits and outputs. Original and copy don't influence each other afterwards, and having been copied changes nothing about the original.",
  ["histories"], "all models, points of their histories, and continuations",
  "The tests never copy or save a model.",
  [MO, VA], [("attributes of MedilCausalModel, GaussianMCM, NeuroCausalFactorAnalysis, DevMedil and Parameters", MO), ("VariationalAutoencoder", VA)], ["attributes and behaviour of models and their copies"])
p("C37", "Results depend on nothing but the arguments",
  "Every operation on graphs, structures, datasets and weights, and every generation or fit with a given random generator, returns the same result as it would in a new process, whatever has been computed before: with the same, equal or similar arguments, with the same array after its content was changed, or with other options. Neither the hash seed of the interpreter nor stripping assertions makes a difference.",
  ["histories", "configurations"], "all sequences of operations",
  "Each test calls an operation once or twice, with unrelated arguments.",
  ["medil/"], [("functions without state between calls", "medil/")], ["return values of public operations, compared with those in new processes"])
p("C38", "Repeated use accumulates nothing",
  "However often graphs, structures and datasets are generated, learned, compared, tested and fitted, no files, threads, processes, temporary files or memory stay in use once each operation has ended, also if it ended in an exception in a worker process that is still being handled. Models that are kept hold nothing but memory. Models that are fitted or sampled from again and again don't grow, neither in memory nor when saved, and neither do the artifacts of neural training. During neural training, what is kept for differentiating a batch is released with the batch.",
  ["histories"], "all sequences of operations of any length",
  "The tests call everything a few times and look at results only.",
  ["medil/"], [("state is kept in local variables and model attributes only", "medil/"), ("with-blocks of Pool and open", "medil/independence_testing.py, medil/models.py"), ("loss.item() in the training loop", MO)], ["open files, threads, child processes, allocated memory of the process, sizes of saved models"])
p("C39", "Results depend on the numbers in arrays, not on how they are stored",
  "Graphs, structures, datasets and weights may be read-only, stored row by row, column by column, in reverse, unaligned, with gaps, in either byte order, or as parts of larger arrays; graphs and structures also as any numeric or boolean type, and datasets as any numeric type, that represents the same numbers. Every operation accepts them all, leaves them unchanged, and returns the same result up to rounding.",
  ["inputs", "configurations"], "all storage layouts and numeric types of arguments (weights: layouts of floating-point and signed integer arrays)",
  "The tests pass contiguous writable arrays of the types that numpy chooses by default.",
  ["medil/"], [("rankdata, cov, corrcoef and pdist of the data as given", "medil/independence_testing.py, medil/models.py"), ("astype and view of graphs and structures", "medil/ecc_algorithms.py, medil/graph.py, medil/models.py")], ["return values of public operations, bytes of their arguments"])
p("C40", "Operations leave the process as they found it",
  "Importing medil's modules and calling its operations, whether they succeed, refuse or are interrupted, changes no setting of the process or of other libraries: error handling and printing of numpy, gradient mode, default type, threads and determinism of torch, styles and options of matplotlib and pandas, warning filters, working directory, environment, umask, signal handlers, recursion limit, locale, logging, output streams, garbage collection, and module search path stay as they were. The global random generators of Python, numpy and torch are neither seeded nor used, except by neural training, which seeds those of numpy and torch.",
  ["histories", "configurations"], "all operations with all outcomes, and all settings before",
  "The tests never look at settings, and changed ones can make no difference to them.",
  ["medil/"], [("no calls to seterr, set_grad_enabled, rcParams, chdir, simplefilter outside of with-blocks", "medil/"), ("torch.no_grad in validation", MO)], ["settings of interpreter and libraries before and after operations"])
p("C41", "What is printed and logged is true, and asking for it changes nothing",
  "The search for a minimum cover reports an upper bound that is never below the minimum, tries increasing numbers of cliques of which the last reported one is the number it returns (unless cut short), and, if verbose, reports numbers of uncovered edges that end at zero; reductions of graphs report the numbers of edges that are actually left. Printing the parameters of a model shows the parameterization and exactly the current means, variances and weights, each under its name. A verbose neural model prints exactly the entries it adds to its log. Verbosity changes no result, and without it neither neural training nor any operation other than the search for a minimum cover prints anything.",
  ["inputs", "configurations"], "all graphs, models and trainings, with and without verbosity",
  "No test looks at output or compares verbose runs with others; bounds and progress only go wrong for certain graphs.",
  [ECC, GR, MO], [("find_clique_min_cover", ECC), ("reduzieren and rules, cover_edges", GR), ("Parameters.__str__, log", MO)],
  ["standard output and error", "training.log", "return values"])
p("C42", "The order of observations, variables and latents doesn't matter",
  "Reordering the observations of a dataset changes no distance covariance, p-value, estimated graph, learned structure, fitted mean or least squares distance, no penalized fit, and no neural training with the same observations in the same batches. Reordering variables reorders distance covariances, p-values (unless the test is asymmetric), graphs, means and maximal cliques, and changes neither the number of latents of minimum covers and one-pure-child structures nor distances between structures or weights; nor does reordering latents. All up to rounding errors, and to pairs of variables on the verge of dependence.",
  ["inputs"], "all datasets, graphs, structures and weights in all orders",
  "The tests compute each result for one order; dependence on it only shows for long, sorted or drifting data, and certain graphs.",
  ["medil/"], [("dcov, estimate_UDG, xicorr", IT), ("find_heuristic_1pc, find_clique_min_cover, max_cliques", ECC), ("GaussianMCM, NeuroCausalFactorAnalysis, DevMedil", MO), ("sfd, min_perm_squared_l2_dist", EV)], ["return values and fitted models for reordered arguments"])
p("C43", "Units and origins of measurement don't matter",
  "Measuring each variable in another unit or from another origin changes no p-value, estimated graph or learned structure (nor does another sign, for distance and linear correlations), and neither losses nor parameters of neural training; distance covariances, mean distances, fitted means and distances between weights are converted accordingly, and the relative least squares distance of Gaussian fits stays the same if all variables' units change alike. The xi correlation depends on ranks only. Samples of Gaussian models follow the units of their parameters, and penalized fits don't depend on the origin. All up to rounding errors that the numbers make inevitable.",
  ["inputs"], "all datasets, weights and models, factors of at least 2^-30 to 2^30, origins up to a million standard deviations",
  "The tests use data of unit scale only.",
  [IT, MO, EV, SA], [("dcov, estimate_UDG, xicorr, dcor_test", IT), ("_estimate_udg, scale in GaussianMCM.fit, standardization in NeuroCausalFactorAnalysis.fit", MO), ("min_perm_squared_l2_dist", EV)], ["return values and fitted models for converted arguments"])
p("C44", "Composite operations agree with their steps, and wholes with their parts",
  "Fitting a Gaussian model to data alone gives what the heuristic for the estimated graph gives, and the same as fitting with that graph or that structure; a neural model's structure learning is estimation by its method followed by the heuristic; a random model is that of the random structure drawn with the same generator, and random structures without pure children are minimum covers of their graphs; independence tests for a dataset give the p-values of its pairs, and graphs from given p-values are those of the tests at every level, growing with it; whether two variables are dependent has nothing to do with other variables; penalized fits by name are the named ones, with the validated loss of the training data as objective. For graphs of several components, minimum covers, pure children and maximal cliques are those of the components taken together, isolated variables and twins count once and not at all, respectively; distances between structures are metrics that add up over blocks, and the displayed, recovered and induced graphs of a structure are the same. Samples drawn one after the other continue the sequence of the generator.",
  ["inputs", "configurations"], "all datasets, graphs, structures, generators and levels",
  "The tests call each operation by itself.",
  ["medil/"], [("GaussianMCM.fit, _compute_biadj, DevMedil", MO), ("mcm, biadj", SA), ("estimate_UDG", IT), ("sfd, recover_ug", EV), ("find_clique_min_cover, find_heuristic_1pc, max_cliques", ECC), ("get_adj_from_incidence, get_dag_from_biadj", "medil/visualize.py")], ["return values of operations, of their steps, and for parts of their arguments"])
p("C45", "Networks treat observations one by one",
  "What a network, new or trained, makes of an observation depends on this observation, the current parameters and, in training mode, on standard normal noise that is independent between observations, latents and passes: not on the rest of the batch, its order or size, or anything computed earlier. In evaluation mode, in which trained models are returned, nothing is random. Forward passes change no parameter; their derivatives with respect to all parameters are those of the outputs, so nothing is cut off. Networks are encoders followed by decoders; initial parameters are independent and uniform in the range given by the number of inputs and depend on torch's seed only. Masked layers are linear functions of the unmasked inputs, and masked weights get no derivatives.",
  ["inputs", "histories"], "all network sizes, parameters and batches",
  "The tests train one model and look at no output.",
  [VA, MO], [("VariationalAutoencoder, Encoder, Decoder, SparseLinear", VA), ("_train_vae", MO)], ["outputs, latents (forward hooks), derivatives and parameters of networks"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
s.pop("$schema", None)
for x in P:
    jsonschema.validate(x, s)
print(len(P))
