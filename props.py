"""The one place that says what is claimed and how it is decided.

`python3 props.py` regenerates properties.jsonl and MANIFEST.json from this file.
"""
import glob, json, os

HERE = os.path.dirname(os.path.abspath(__file__))
ASSUMPTIONS = [
    "x86-64, g++ 13 (the compiler the project builds with), scalar type double unless a scenario says float",
    "judges executions that were run, nothing more: the inputs drawn from VERIF_SEED, under AddressSanitizer and UndefinedBehaviorSanitizer",
    "fresh Eigen storage is filled with NaN and fresh heap memory with 0xA5, so a read of uninitialised memory shows up in a result",
]
SAN = "oracle monitor over randomized executions under ASan+UBSan"

P = {}


def prop(pid, title, statement, quant, why, files, mech, technique, note, rule, src=None, **cfg):
    P[pid] = dict(pid=pid, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, rule=rule, src=src, cfg=cfg)


IN = ["inputs"]
IC = ["inputs", "configurations"]
HI = ["inputs", "histories"]

prop("P01", "Every documented call is free of memory errors, undefined behaviour and leaks",
     "For every valid input and configuration, no call of the library reads or writes outside an object, uses freed or uninitialised memory, executes undefined arithmetic, or lets such a value decide a result; an unsupported option or mismatched shape that is documented as an error is answered with an exception, never with a crash. An object gives back all memory it took when it is destroyed, also after a failed or repeated fit.",
     (IC + ["histories"], "all public functions and all estimators, with every documented option, data of 1 to ~60 rows of normal, tied, constant, duplicated, tiny, huge and mixed values, repeated calls on the same object"),
     "Tests run each function on one or two small fixed matrices without a sanitizer; a stray access or an uninitialised read there is silent.",
     ["src/core", "src/methods"],
     [("virtual destructors and value members own all storage", "src/core/optimizer/base.hpp, src/core/tree/*.hpp, src/methods/*/base.hpp"), ("size checks before element access", "src/core/common.hpp")],
     "ASan+UBSan, poisoned fresh storage, valgrind memcheck, allocation accounting",
     "Sanitizer verdict on the executions run; leaks by live-byte accounting around a warmed-up object lifetime; values not judged here.",
     "a case draws data and options for one API family and runs a history of calls on it; non-trivial when it made at least one library call on data of more than one element")

prop("P02", "Loading a text table returns exactly its numbers",
     "Loading a whitespace-separated table returns every row in file order, every field but the last as features and the last as label, each number as written to full double precision, whatever the containers held before; blank lines, surrounding blanks, tabs, CRLF endings and a missing final newline change nothing. The transaction loader returns every line's items. A missing file, a file without data and a table with rows of different length are errors.",
     (IN, "tables of 1-40 rows and 2-9 columns (now and then up to 1500 rows or lines of 200000 characters) in every spelling of doubles (signs, exponents, denormal to 1e200), with blank lines, tabs, CRLF, trailing blanks, no final newline; containers that already hold data; ragged, empty, missing files"),
     "Tests load two clean data sets and look at the shape; they never compare values, nor malformed files.",
     ["src/core/data/load.hpp"], [("line splitting and conversion", "src/core/data/load.hpp: loadtxt")],
     SAN + " (file generator knows the table)", "Compares every element with the table the file was generated from.",
     "a case is one generated file; non-trivial when it has more than one row or is a malformed file")

prop("P03", "Splitting and shuffling permute samples and keep rows with their labels",
     "train_test_split puts every sample into exactly one of the two parts together with its own label, the training part has floor(n*train_size) samples, and without shuffling the order is kept. shuffle_data returns a permutation of the rows (with their labels) or of the columns, in place too, and every order is reachable with about equal chance. divide_on_feature returns the indices of exactly the rows whose feature is at most the threshold, and of the others, each in ascending order. Inputs are left unchanged, and an axis other than 0 and 1 is an error.",
     (IC, "1-3000 samples, now and then up to 80000, any train_size in [0,1], shuffled or not, in place or not, every draw of the generator; thresholds equal to, next to and between values, values equal to the last digits, infinite thresholds"),
     "Tests check the sizes of one split.",
     ["src/core/data/split.hpp", "src/core/math/shuffle.hpp", "src/core/math/random.hpp"], [("index permutation applied to rows and labels together", "src/core/math/shuffle.hpp: shuffle_data"), ("cut position", "src/core/data/split.hpp: train_test_split"), ("comparison with the threshold", "src/core/data/split.hpp: divide_on_feature")],
     SAN + " (rows tagged with their identity)", "Rows carry their index, so loss, duplication and mispairing are visible; uniformity judged by frequencies of 3000 draws (6 orders, bounds 5.6 sigma).",
     "a case is one split or shuffle; non-trivial when n > 1")

prop("P04", "Sorting, selecting and set utilities agree with their definitions",
     "sort, argsort, sortrows, argmax, argmin, unique, where, slice, remove_duplicate_rows, difference, contains, is_equal, combinations and merge return what their definitions say for every matrix or vector and axis (0, 1, and -1 where offered), ascending or reverse: index results are permutations that realise the order, unique returns first positions in the input, combinations returns each k-subset once, difference each element of the first vector that is not in the second once. Out-of-range slices, unknown axes and empty 2d lists are errors, and inputs stay unchanged.",
     (IN, "matrices of 1-30 by 1-12 with ties, duplicates, negative, tiny and huge values, double and float; one- and two-element lines; every axis and direction"),
     "Tests sort a couple of fixed 3x4 matrices without ties.",
     ["src/core/common.hpp"], [("sort/argsort/argmax/unique/where/slice/combinations", "src/core/common.hpp")],
     SAN + " (naive reference)", "Exact comparison with naive references; among equal elements any order is accepted.",
     "a case is one drawn matrix/vector with all utilities applied; non-trivial when it has more than two elements")

prop("P05", "Shaping, element-wise and statistics functions equal their definitions",
     "hstack, vstack, flatten, repeat, vec2mat, clip, fmin, diagmat place every element where documented; sum, mean, median, (population) var, cumsum, norms, row_norms, mode, center, cov, abs, sign and power equal their definitions along every axis (0 columns, 1 rows, -1 all) to rounding accuracy, also for data far from zero. Variance is never negative; mismatched shapes, and axes unknown to sum, mean, median, var, cumsum and row norms, are errors; inputs stay unchanged.",
     (IN, "matrices of 1-24 by 1-12 in double and float: normal, tied, constant, duplicated, huge, tiny and mixed values, offset by 1e8"),
     "Tests compare single small integer matrices, where cancellation and axis mix-ups of square data do not show.",
     ["src/core/common.hpp", "src/core/math/extmath.hpp", "src/core/math/ops.hpp", "src/core/math/linalg.hpp"], [("axis dispatch of the reductions", "src/core/math/ops.hpp, src/core/math/extmath.hpp"), ("stacking and reshaping", "src/core/common.hpp")],
     SAN + " (long-double reference)", "Tolerances follow the rounding error of a summation of the same data.",
     "a case is one matrix with the family's functions applied; non-trivial when it has more than two elements")

prop("P06", "Sigmoid, softmax, logsumexp and the Gaussian log density are stable",
     "For every finite input, however large in magnitude, sigmoid lies in [0,1], every softmax line is a probability distribution, and sigmoid, softmax, logsumexp and the Gaussian log density equal their mathematical values to rounding; nothing overflows to NaN or infinity. softmax and logsumexp work along axis 0, 1 and -1, also for a single row or column; an empty matrix has no softmax and is an error.",
     (IN, "logits between -1e5 and 1e5, with offsets that overflow a naive exponential, 1-8 by 1-8, every axis"),
     "Tests use logits of size about one.",
     ["src/core/math/extmath.hpp", "src/core/math/linalg.hpp", "src/core/math/proba.hpp"], [("maximum subtracted before exponentiation", "src/core/math/extmath.hpp: softmax; src/core/math/linalg.hpp: logsumexp"), ("two-sided sigmoid", "src/core/math/extmath.hpp: sigmoid")],
     SAN + " (long-double reference)", "Relative accuracy 1e-9 or better against a long-double evaluation.",
     "a case is one matrix of logits; non-trivial when it has more than one element")

prop("P07", "Entropy and Gini index equal their definitions",
     "entropy (base 2) and the Gini index of a label vector equal -sum p log2 p and 1 - sum p^2 of its class frequencies; with sample weights, each class's p is its mean weight (sum of weights over the number of samples), and classes of zero weight contribute nothing. Neither depends on the order of the samples or the names of the classes, and weights of another length are an error.",
     (IN, "1-60 samples of 1-8 classes with negative, fractional and nearly equal labels, unweighted or with weights from 1e-6 to thousands, including zero and whole classes of weight zero"),
     "Tests evaluate one label vector.", ["src/core/math/extmath.hpp"], [("class frequencies", "src/core/math/extmath.hpp: entropy, gini")],
     SAN + " (reference and metamorphic)", "Compared with a long-double evaluation to 1e-11.",
     "a case is one label vector; non-trivial when n > 1")

prop("P08", "Matrix factorisations satisfy their defining equations",
     "For every finite real matrix, lu returns a permutation, a unit lower and an upper factor whose product is the matrix; qr an orthonormal and an upper factor; exact_svd orthonormal factors (the third is V), non-negative descending singular values whose product is the matrix; cholesky the triangular factor of a positive definite matrix and an error for an indefinite one; pinv satisfies the four Penrose equations; logdet is log|A| (-inf for negative determinants); eig returns eigenpairs; svd_flip flips each component pair together and makes its largest loading positive. Inputs stay unchanged.",
     (IN, "shapes from 1x1 to 40x28, full or reduced, rank-deficient, ill-scaled and clustered spectra, nearly symmetric matrices, whole matrices scaled by up to 2^120"),
     "Tests factor single well-conditioned square matrices; shapes, rank deficiency and clustered spectra are not sampled.",
     ["src/core/math/linalg.hpp", "src/core/math/extmath.hpp"], [("wrappers over Eigen decompositions", "src/core/math/linalg.hpp")],
     SAN + " (defining equations in long double)", "Backward-error tolerances relative to the matrix norm; pinv for singular values well above its absolute cut of 1e-6; eig for real, separated spectra.",
     "a case is one matrix; non-trivial when it has more than one element")

prop("P09", "Randomised SVD and TruncatedSVD approximate the leading singular triplets",
     "For every matrix and every draw, randomized_svd returns orthonormal factors and descending singular values that never exceed the true ones, and with oversampling and power iterations they and the reconstruction are as accurate as the spectrum's decay allows. TruncatedSVD exposes these components, transforms any rows to their coordinates on them, and reports the variance of each transformed column and its ratio to the total feature variance, also after a refit; a component count beyond the matrix size and an unknown normaliser are errors.",
     (IC, "3-40 by 3-24 matrices of decaying or deficient spectrum, 1..min/2 components, LU/QR/None normaliser, 2-6 iterations"),
     "Tests run one small matrix and check shapes.",
     ["src/core/math/linalg.hpp", "src/core/math/extmath.hpp", "src/methods/decomposition/truncated_svd.hpp"], [("range finder with power iterations", "src/core/math/linalg.hpp: randomized_svd"), ("transform and explained variance", "src/methods/decomposition/truncated_svd.hpp")],
     SAN + " (matrices of known spectrum)", "Accuracy bound is the Halko-type bound with a wide margin, so it never depends on the draw.",
     "a case is one matrix of known spectrum and one configuration; all are non-trivial")

prop("P10", "KD-tree queries return exactly the nearest points and all points within a radius",
     "For every data set, leaf size and metric (euclidean, manhattan, chebyshev), query returns the k distinct points nearest to each query point, in ascending order, with their true distances; query_radius returns every point whose distance is at most the radius, once, with its true distance, and no other. A batch of queries answers as the queries would one at a time, and an unknown metric is an error.",
     (IC, "1-2500 points in 1-6 dimensions with ties, duplicates, constant features, huge and tiny scales, values that agree in all but their last digits; leaf size 1-20; k up to n; radii exactly on a point, and negative; double and float"),
     "Tests query one tiny tree; losing neighbours needs particular splits and query positions.",
     ["src/core/tree/kd_tree.hpp"], [("hyper-rectangle bounds and pruning", "src/core/tree/kd_tree.hpp: build_tree, query_single_data, query_radius_single_data"), ("distance heap", "src/core/tree/kd_tree.hpp")],
     SAN + " (exhaustive search)", "Exact membership on data whose distances are exact; otherwise a rounding band around the k-th distance or the radius accepts either answer.",
     "a case is one tree with several queries; non-trivial when the tree has a branch", )

prop("P11", "k-nearest-neighbour classification is a majority among the k nearest",
     "KNearestNeighbors predicts for every row a label that is a most frequent one among its k nearest training points under the chosen metric, with the kd-tree or the brute-force solver and whatever the leaf size; both solvers agree where distances and votes are not tied; a metric the solver does not offer is an error. Predictions do not depend on the other rows of the batch or on an earlier fit, and inputs stay unchanged.",
     (IC, "1-80 training points in 1-5 dimensions, 1-5 arbitrary (fractional, nearly equal) labels, nearly equal points, k 1-15, leaf 1-15, both solvers, all metrics each offers"),
     "The repository's test of this class does not compile, so nothing covers it.",
     ["src/methods/neighbors/k_nearest_neighbors.hpp", "src/methods/neighbors/base.hpp", "src/core/tree/kd_tree.hpp"], [("vote over neighbour labels", "src/methods/neighbors/k_nearest_neighbors.hpp")],
     SAN + " (exhaustive neighbours; feasible votes)", "Accepts every label that some choice among distance-tied neighbours makes most frequent.",
     "a case is one fitted model and a batch of queries; non-trivial when n > 2")

prop("P12", "The hash tree counts every itemset's support exactly",
     "Whatever the order of insertions, support increments and queries, and whatever the leaf and child limits, a query for itemsets with support of at least s returns exactly the inserted itemsets whose number of increments since insertion is at least s, each once and with its exact count. Increments of itemsets that were not inserted change nothing, and queries neither keep earlier results nor disturb the tree.",
     (["histories", "configurations"], "histories of up to 80 operations over itemsets of one length (1-5) of up to 13 items, leaf and child limits 1-8"),
     "Tests insert a handful of itemsets and print them.",
     ["src/core/tree/hash_tree.hpp"], [("splitting of full leaves and hashing of items", "src/core/tree/hash_tree.hpp: insert, add_support"), ("traversal", "src/core/tree/hash_tree.hpp: compute_frequency_itemsets")],
     "online model-based monitor (reference map) under ASan+UBSan", "The whole history is compared with a reference map at every query.",
     "a case is one history; non-trivial when it has more than three operations")

prop("P13", "Apriori returns exactly the association rules of the data",
     "For every list of transactions (unsorted and with repeated items too), min_support and min_confidence, the rules are exactly those splits A => B of itemsets contained in at least floor(n*min_support) transactions whose confidence support(A u B)/support(A) is at least min_confidence, each once and with that confidence; print_rules prints those rules in that order. When no single item is frequent an exception is thrown; a second fit does not remember the first; the transactions stay unchanged.",
     (IC + ["histories"], "1-25 transactions over 2-9 items, support thresholds from one transaction to all, confidences 0 to 1, also exactly on and next to ratios of counts, refits"),
     "Tests print the rules of one data set.",
     ["src/methods/rule_model/apriori.hpp", "src/core/tree/hash_tree.hpp"], [("candidate join and prune", "src/methods/rule_model/apriori.hpp"), ("support counting", "src/core/tree/hash_tree.hpp")],
     SAN + " (exhaustive enumeration of itemsets)", "Complete for each drawn data set: all itemsets and all splits are enumerated.",
     "a case is one transaction list with thresholds (sometimes refitted); non-trivial when n > 2", )

prop("P14", "The transaction encoder's matrix says exactly which items each transaction has",
     "The sparse matrix has one row per transaction and one column per distinct item in ascending order; its entry stores the item itself where the transaction contains the item, once even if the transaction repeats it, and nothing elsewhere. Encoding again gives the same matrix.",
     (IN, "1-25 transactions of 0-10 items with repetitions, signed and unsigned item types, negative and beyond 2^32"),
     "Tests print one encoding.", ["src/core/preprocessing/transaction_encoder.hpp"], [("column map over sorted items", "src/core/preprocessing/transaction_encoder.hpp")],
     SAN + " (set-based reference)", "Entry-by-entry comparison.", "a case is one transaction list; non-trivial when n > 1")

prop("P15", "Each loss equals its formula and its gradient is that formula's derivative",
     "MSE, log loss, hinge, Huber and softmax losses return their documented value (mean over samples; sum for hinge) plus lambda/(2n) times the squared weights, and their gradient is the derivative of exactly that value, for every data set and weights; saturated probabilities stay finite. Inputs stay unchanged.",
     (IN, "1-20 samples, 1-8 features, lambda 0-3, margins up to saturation, thresholds and deltas other than the default, 2-5 classes"),
     "Tests only use losses through estimators on easy data.",
     ["src/core/loss/mean_squared_error.hpp", "src/core/loss/log_loss.hpp", "src/core/loss/hinge_loss.hpp", "src/core/loss/huber_loss.hpp", "src/core/loss/softmax_loss.hpp"], [("evaluate and gradient", "src/core/loss/*.hpp")],
     SAN + " (long-double formula and derivative)", "Away from the hinge's kink; tolerances follow the size of the summed terms.",
     "a case is one data set, weight vector and loss; non-trivial when there is more than one element")

prop("P16", "SGD, SAG and truncated gradient follow their algorithms step by step",
     "Each epoch uses each sample at most once, with its own label, in floor(n/batch_size) batches (reshuffled every epoch if asked, in order otherwise); every step applies the update rule at the scheduled rate of its epoch to the batch gradient clipped to +-1e10 (SAG: to the mean over all batches of their latest stored gradients; truncated gradient: followed by the cumulative l1 truncation). Training stops exactly when the epoch's loss sum failed to beat the best by tol*batch_size for n_iter_no_change consecutive epochs, returning the last weights, and throws after max_iter epochs otherwise.",
     (["histories", "inputs", "configurations"], "1-30 samples, any batch size up to n, both decays, three update rules, several classes, arbitrary gradients and loss sequences given by a scripted loss"),
     "Tests train one model to a loose score; wrong clipping, stop rule, stale SAG gradients or mispaired batches still pass.",
     ["src/core/optimizer/sgd/sgd.hpp", "src/core/optimizer/sgd/sag.hpp", "src/core/optimizer/sgd/tg.hpp", "src/core/optimizer/base.hpp"], [("epoch and batch loop, stop rule", "src/core/optimizer/sgd/*.hpp: optimize")],
     "offline checker of the recorded loss-call history under ASan+UBSan", "The loss object records every call; the checker replays the documented algorithm from the recorded gradients; comparisons too close to call end the judgement of the stop rule.",
     "a case is one training run; non-trivial when n > 1")

prop("P17", "Learning-rate schedules and weight updates follow their formulas",
     "StepDecay gives base*gamma^floor((1+epoch)/step), ExponentialDecay base*exp(-gamma*epoch), neither ever grows with the epoch, and asking twice gives the same rate. Vanilla, momentum and Nesterov updates of a history of gradients are w - lr*g; w - v with v = mu*v + lr*g; and w - (v + mu*(v - v_prev)), v starting at zero, again when the weights change shape, and kept by each object separately; arguments stay unchanged.",
     (["histories", "configurations"], "epochs up to a million, any base, decay factors in (0,1], step 1-40, histories of 1-30 updates of vectors and matrices, defaults and explicit parameters"),
     "Tests train through them once; a schedule that grows or a velocity that is forgotten still trains.",
     ["src/core/optimizer/sgd/decay_policies/step_decay.hpp", "src/core/optimizer/sgd/decay_policies/exponential_decay.hpp", "src/core/optimizer/sgd/update_policies"], [("compute / update", "src/core/optimizer/sgd/{decay,update}_policies/*.hpp")],
     SAN + " (reference recurrence)", "Every rate and every update of the history compared.",
     "a case is one schedule or one update history; non-trivial for schedules and histories longer than one")

prop("P18", "Stochastic coordinate descent takes the best soft-threshold step and descends",
     "Every iteration of SCD changes at most one coordinate, by the soft-thresholded step for the given curvature bound and l1 weight, and that coordinate has the largest predicted descent; it runs max_iter iterations on the whole data with labels paired. When the bound covers the curvature the penalised objective never increases, and the limit satisfies the optimality conditions of the l1 problem, with inactive weights exactly zero.",
     (["histories", "inputs", "configurations"], "1-25 samples, 1-6 features, alpha 0 to 3, bounds below and above the true curvature, shuffled or not, up to 3000 iterations"),
     "Tests run one data set and print the weights.",
     ["src/core/optimizer/sgd/scd.hpp"], [("greedy coordinate choice", "src/core/optimizer/sgd/scd.hpp: optimize")],
     "offline checker of the recorded loss-call history under ASan+UBSan", "Ties between coordinates are accepted within rounding.",
     "a case is one run; non-trivial when d > 1")

prop("P19", "L-BFGS evaluates exactly the points of the method and returns the best",
     "Every point at which L-BFGS takes the loss is the one that the two-loop recursion with the configured memory and the configured line search (backtracking or bracketing; Armijo, Wolfe or strong Wolfe condition, its step limits and its number of trials; a direction that does not descend is not searched) prescribe, and it stops at the documented gradient, past-delta or iteration criterion. On smooth convex losses it ends at the minimum; an unknown line search policy is an error.",
     (["histories", "inputs", "configurations"], "convex and non-convex losses of 1-60 variables with condition numbers to 300, memory 1-9, past 0-4, all search policies, conditions and limits, any start"),
     "Tests reach one minimum within a loose tolerance; a wrong memory ring, direction or line search still gets there.",
     ["src/core/optimizer/lbfgs/lbfgs.hpp", "src/core/optimizer/lbfgs/params.hpp", "src/core/optimizer/lbfgs/search_policies"], [("two-loop recursion", "src/core/optimizer/lbfgs/lbfgs.hpp"), ("line searches", "src/core/optimizer/lbfgs/search_policies/*.hpp")],
     "offline checker of the recorded loss-call history against an independent implementation", "The judgement of a run ends where a comparison is too close to call or rounding has grown; repeated evaluation at the same point is accepted.",
     "a case is one minimisation; non-trivial when more than one point was evaluated")

prop("P20", "Linear and ridge regression return the least-squares solution",
     "LinearRegression's weights solve the least-squares problem and RidgeRegression's the one penalised by lambda times the squared weights (the intercept's too), with or without an intercept, which is the last weight; predict is X times the weights plus the intercept for any rows. Fitting leaves the data, and predicting leaves the model, unchanged.",
     (IC, "1-33 rows, 1-8 features of full column rank (condition < 1e6 for the plain problem), lambda 0 and from 0.001 to 1000, ridge also with fewer rows than features"),
     "Tests fit one housing data set and print a score.",
     ["src/methods/linear_model/linear_regression.hpp", "src/methods/linear_model/ridge_regression.hpp", "src/methods/linear_model/base.hpp"], [("normal equations / solvers", "src/methods/linear_model/{linear,ridge}_regression.hpp: fit"), ("prediction", "src/methods/linear_model/base.hpp")],
     SAN + " (long-double solution)", "Tolerance grows with the squared condition number, as for the normal equations the library solves.",
     "a case is one data set and solver; non-trivial when n > 1")

prop("P21", "Lasso returns weights that satisfy the optimality conditions of its problem",
     "After enough iterations with a large enough curvature bound, LassoRegression's weights (and the intercept, penalised alike) satisfy the subgradient conditions of least squares plus lambda times the l1 norm: active weights balance the gradient exactly and inactive ones are exactly zero; a penalty above the largest correlation makes all of them zero. predict is X*coef + intercept.",
     (IC, "5-40 (now and then up to 1600) rows, 1-5 features, penalties from tiny to dominating, with and without intercept"),
     "Tests fit one data set and print.",
     ["src/methods/linear_model/lasso_regression.hpp", "src/core/optimizer/sgd/scd.hpp"], [("SCD on the squared loss", "src/methods/linear_model/lasso_regression.hpp: fit")],
     SAN + " (subgradient conditions)", "Bounds above the true curvature and enough iterations, as the method requires.",
     "a case is one fitted model; all are non-trivial")

prop("P22", "Linear classifiers predict from their coefficients and learn separable data",
     "Logistic regression's probabilities are the sigmoid of X*weights + intercept (class 0 first), softmax regression's the softmax of its scores, rows summing to one; each classifier predicts the most probable class (logistic regression and perceptron: 1 for a positive score, else 0). Trained by lbfgs, logistic regression ends at a stationary point of its log loss, by scd at an optimum of its l1-penalised one; sgd, sag, softmax regression and the perceptron (which takes every positive label for class 1 and every other for class 0) beat the untrained model on separated data. Unsupported combinations of solver and penalty are errors.",
     (IC, "3-100 rows of 1-6 features, 2-4 classes, separated and random labels, solvers lbfgs/sgd/sag/scd, all line searches, any query rows"),
     "Tests train one easy data set and check a loose score.",
     ["src/methods/linear_model/logistic_regression.hpp", "src/methods/linear_model/perceptron.hpp", "src/methods/linear_model/softmax_regression.hpp", "src/methods/linear_model/base.hpp"], [("decision function and probabilities", "src/methods/linear_model/*.hpp: predict, predict_prob"), ("trainers", "src/core/optimizer")],
     SAN + " (semantics from coefficients; stationarity; separable data)", "Optimality judged for lbfgs; the stochastic trainers are judged on clearly separable data with a wide margin.",
     "a case is one trained model and batch of queries; all are non-trivial")

prop("P23", "Naive Bayes posteriors are those of the fitted class statistics",
     "GaussianNB keeps each class's feature means and population variances plus the smoothing share of the largest variance, MultinomialNB each class's Laplace-smoothed feature counts, both the class frequencies as priors; log-probabilities, probabilities (summing to one per row) and labels of any rows are those of Bayes' rule on them, and predicted labels are training labels.",
     (IC + ["histories"], "1-40 rows, 1-8 features, 1-6 arbitrary labels, unbalanced classes, constant features, smoothing values, any query rows"),
     "Tests predict one data set with labels 0..K-1 and look at accuracy.",
     ["src/methods/naive_bayes/base.hpp", "src/methods/naive_bayes/gaussian_naive_bayes.hpp", "src/methods/naive_bayes/multinomial_naive_bayes.hpp"], [("class statistics", "src/methods/naive_bayes/*.hpp: fit"), ("normalisation", "src/methods/naive_bayes/base.hpp: predict_log_prob")],
     SAN + " (long-double posterior)", "Near-ties between classes accept either label.",
     "a case is one fitted model and batch; all are non-trivial")

prop("P24", "PCA returns the covariance's leading eigenvectors and maps data consistently",
     "PCA's components are orthonormal eigenvectors of the sample covariance with the largest variances, explained variances and ratios are those eigenvalues and their shares, and the discarded variance is exactly the reconstruction error; transform projects any rows after subtracting the training mean; get_covariance, get_precision and score are those of the probabilistic PCA model, in any order of calls and after refits.",
     (IC + ["histories"], "3-50 rows, 1-24 features, any component count, low-rank and badly scaled data, refits"),
     "Tests compare shapes and one reconstruction.",
     ["src/methods/decomposition/pca.hpp", "src/methods/decomposition/base.hpp"], [("eigen/singular decomposition of centred data", "src/methods/decomposition/pca.hpp: fit"), ("centring at the training mean", "src/methods/decomposition/pca.hpp: transform")],
     SAN + " (independent eigen-decomposition)", "Components are compared as eigen-spaces, so sign and order of equal variances are free.",
     "a case is one fitted model; non-trivial when it has more than one element")

prop("P25", "KMeans assigns each row to the nearest of its fitted centres",
     "Labels are integers in 0..k-1, rows are labelled by the nearest centre (cells are convex, equal rows share a label, training labels are a Lloyd fixed point when iterations suffice), predictions do not depend on the batch. Fitting is Lloyd's iteration from k rows of the data: each iteration moves every centre to the mean of the rows nearest to it (an empty one stays), and it ends after max_iter iterations or the first in which the centres move by less than tol in total. k-means++ draws the first centre uniformly and every further one as the best (least summed squared distance) of 2+floor(ln k) rows drawn with probability proportional to the squared distance from the nearest centre so far. With k distinct points every distinct point is its own cluster, and k-means++ recovers clusters separated by many times their spread.",
     (IC, "1-60 rows, 1-4 features, k 1-8, random and k-means++ starts, duplicates, every draw"),
     "Tests print the labels of one data set.",
     ["src/methods/cluster/kmeans.hpp"], [("Lloyd iteration", "src/methods/cluster/kmeans.hpp: fit"), ("seeding", "src/methods/cluster/kmeans.hpp")],
     SAN + " (Voronoi and fixed-point invariants)", "Judged through predict only, since the centres are not exposed.",
     "a case is one fitted model; non-trivial when k > 1")

prop("P26", "GaussianMixture conserves the data's moments and is an EM fixed point",
     "Weights are positive and sum to one, covariances are symmetric and at least the regularisation, precisions are their inverses and precision factors their upper Cholesky factors; the mixture's mean and second moment (less the regularisation) equal the data's, for full and tied covariances. predict_prob gives the responsibilities of exactly this mixture, predict the most responsible component; when convergence is claimed one more EM step gains nothing and the lower bound is the mean log likelihood; of several initialisations the best is kept; too few samples and non-convergence are errors.",
     (IC, "1-9 components in 1-4 dimensions, full or tied, 1-3 initialisations, tolerances and regularisations, offset data, every draw"),
     "Tests print one fit.",
     ["src/methods/mixture/gaussian_mixture.hpp"], [("E and M step", "src/methods/mixture/gaussian_mixture.hpp"), ("restarts and convergence", "src/methods/mixture/gaussian_mixture.hpp: fit")],
     SAN + " (conservation laws, EM replay in long double)", "Fixed-point and likelihood equalities only for tight tolerances; restarts judged statistically over 9 data sets.",
     "a case is one fitted mixture; non-trivial when it has more than one component", )

prop("P27", "A decision tree classifier is the greedy tree of its criterion",
     "The tree is grown by the documented greedy rule: at every node the split at a midpoint between neighbouring values with the largest decrease of gini or entropy impurity, and a leaf when samples, depth, decrease or leaf size fall below the limits; a row's class probabilities are its leaf's class frequencies and its prediction a most probable class, with the labels of the training data. Every leaf holds at least min_samples_leaf samples, class probabilities of the training rows add up to the class counts, refitting forgets the earlier fit, and an unknown criterion is an error.",
     (IC + ["histories"], "1-260 rows, 1-5 features with ties and constants, tiny, huge and nearly equal values, 1-5 arbitrary labels, both criteria, all limits, any query rows"),
     "Tests fit iris once and check a loose score.",
     ["src/methods/tree/decision_tree_classifier.hpp", "src/methods/tree/base.hpp"], [("split search and stop rules", "src/methods/tree/base.hpp"), ("impurity decrease and leaf values", "src/methods/tree/decision_tree_classifier.hpp")],
     SAN + " (invariants; reference greedy recursion)", "Structure is judged where the best split and the stop decision are unambiguous; near-ties accept any of the tied trees.",
     "a case is one fitted tree; non-trivial when it has a split")

prop("P28", "A decision tree regressor is the greedy tree of its criterion",
     "The tree is grown greedily by the largest decrease of variance (squared_error) or mean absolute deviation from the median (absolute_error) under the documented limits, and predicts the mean of the leaf's training targets; predictions lie within the range of the targets, their sum over the training rows is the sum of the targets, and every leaf holds at least min_samples_leaf rows. Refitting forgets the earlier fit; an unknown criterion is an error.",
     (IC + ["histories"], "1-80 rows, 1-5 features with ties and constants, arbitrary targets, both criteria, all limits, any query rows"),
     "Tests fit one housing data set and print a score.",
     ["src/methods/tree/decision_tree_regressor.hpp", "src/methods/tree/base.hpp"], [("split search and stop rules", "src/methods/tree/base.hpp"), ("impurity decrease and leaf values", "src/methods/tree/decision_tree_regressor.hpp")],
     SAN + " (invariants; reference greedy recursion)", "Structure is judged where the best split and the stop decision are unambiguous.",
     "a case is one fitted tree; non-trivial when it has a split")

prop("P29", "A model is a function of its parameters and last training data only",
     "An estimator fitted to A and then to B is indistinguishable from one fitted to B alone (for randomised training: in everything that does not depend on the draw), copies are independent, and nothing depends on what the memory of the object or its stack held before. A failed fit does not corrupt later ones, and asking for progress output (verbose) changes nothing but the output.",
     (["histories", "inputs", "configurations"], "histories of 1-3 fits with data of different shape and classes for every estimator, objects built in memory of several fill patterns"),
     "Tests build every estimator once and fit it once.",
     ["src/methods"], [("members assigned, not accumulated, in fit", "src/methods/*/*.hpp: fit")],
     "differential monitor over fit histories, poisoned object memory, under ASan+UBSan", "Randomised estimators are reseeded identically by interposed entropy where the library draws from random_device; only draw-independent results are compared otherwise.",
     "a case is one estimator with a history of fits; all are non-trivial")

prop("P30", "Predictions are row-wise, repeatable and leave their inputs alone",
     "For every fitted estimator, the prediction, probability or transform of a row is the same alone, in any batch and in any order of rows, and when asked again; asking changes neither the model nor the query rows, and fit leaves the training data unchanged.",
     (IC, "every estimator with batches of 1-30 rows, permuted, repeated, single"),
     "Tests predict one batch once.", ["src/methods"], [("predict/transform without batch statistics or hidden state", "src/methods/*/*.hpp")],
     "metamorphic monitor under ASan+UBSan", "Floating results may differ by rounding of the matrix product kernels; labels must be equal unless the two best scores are tied.",
     "a case is one fitted model and its batches; all are non-trivial")

prop("P31", "Const queries and independent objects can be used from several threads",
     "Const queries (predict, predict_prob, transform, scores, getters, tree queries, losses, free functions) on one shared object from several threads, and any calls on different objects, do not race and give the results they give in one thread.",
     (["schedules", "inputs"], "8 threads over every estimator and the free functions, several schedules with injected yields"),
     "No test starts a thread.",
     ["src/core", "src/methods"], [("no hidden mutable or static state in const members", "src/methods/*/*.hpp, src/core/math/random.hpp")],
     "ThreadSanitizer, and comparison with single-threaded results", "TSan verdict on the executed interleavings.",
     "a case is one shared model and one schedule; all are non-trivial")

prop("P32", "Random generators stay in range and have the requested distribution",
     "Uniform draws lie in [low, high) and integers in the inclusive range, with every value reachable; normal draws have the requested mean and deviation; a permutation contains every index once and every order is reachable; shapes are as asked, successive draws differ, and real draws are not confined to a coarse grid.",
     (IC, "shapes 1-40, ranges of any sign and width, every draw of the generator"),
     "Tests print a few numbers.", ["src/core/math/random.hpp", "src/core/math/shuffle.hpp"], [("generators", "src/core/math/random.hpp")],
     SAN + " (range and distribution monitors)", "Statistical bounds at more than 6 sigma; correct generators pass for every seed in practice.",
     "a case is one generator call with its parameters; all are non-trivial")

prop("P33", "Distances and regression scores equal their definitions",
     "Euclidean, Manhattan and Minkowski (orders 1, 2 and infinity) distances equal their definitions for every pair of vectors, are symmetric and zero on equal vectors; vectors of different size and unsupported orders are errors. The explained variance score is 1 - Var(y - p)/Var(y) to rounding accuracy, also far from zero, and is not changed by a constant shift of the predictions; mean_absolute_error is, as its documentation says, the mean of the squared differences.",
     (IN, "vectors of 1-40 values of any scale and offset"),
     "Tests evaluate one pair.", ["src/core/metric.hpp"], [("distance and score formulas", "src/core/metric.hpp")],
     SAN + " (long-double reference)", "Relative accuracy 1e-9 or better.", "a case is one pair of vectors; non-trivial when n > 1")

prop("P34", "Single-precision results equal the double-precision ones up to rounding",
     "Every estimator, loss and numeric function can be used with data type float as well as double. On the same data the float result has the same shape, and errors occur for the same inputs; each number differs from the double-precision result by no more than single-precision rounding amplified by the problem's own sensitivity; each decision (label, class, position in an order) is the same wherever it does not hang on such rounding. Randomised fits that draw the same sequence follow the same path, and invariants of the others (mixture weights, posteriors and conserved means) hold to single precision.",
     (IC, "features of ordinary scale, 1-40 rows, 1-22 columns, every estimator and its options, statistics, factorisations and losses"),
     "Every test uses double.", ["src/core", "src/methods"], [("the DataType parameter of every class and function template", "src/core/math/*.hpp, src/core/loss/*.hpp, src/methods/*/*.hpp")],
     SAN + " (float against double, tolerance measured by perturbing the double run)", "Differences below 64-1024 times the measured movement under a single-precision perturbation are not seen; results that move too much are skipped and counted.",
     "a case is one call in both precisions; non-trivial when both gave a result that was compared", onebin=True)

# case counts of the scenarios times this (quick; thorough is relative to the thorough counts)
SCALE = dict(P02=8, P03=10, P04=10, P05=12, P06=20, P07=20, P08=4, P09=8, P10=4, P11=8, P12=15, P13=5, P14=15, P15=15,
             P16=2, P17=3, P19=3, P21=3, P22=2, P23=3, P24=10, P25=5, P29=2, P30=5, P31=2, P32=2, P33=20, P34=4)
CHECKS = {}
MODES_USED = set()
for pid, q in P.items():
    fs = sorted(glob.glob(os.path.join(HERE, "harness", pid + "_*.cpp")))
    if not fs:
        continue
    if pid in SCALE:
        q["cfg"].setdefault("scale_quick", SCALE[pid])
    parts = []
    if q["cfg"].pop("onebin", False):
        parts.append(dict(src=[os.path.basename(f) for f in fs], eig=True, mode="asan", tag="", valgrind=False, **q["cfg"]))
        MODES_USED.add("asan"); fs = []
    for f in fs:
        t = open(f).read()
        mode = "tsan" if "// MODE: tsan" in t else "plain" if "// MODE: plain" in t else "asan"
        MODES_USED.add(mode)
        parts.append(dict(src=[os.path.basename(f)], eig=any(h in t for h in ("eig.hpp", "zoo.hpp", "p01.hpp")), mode=mode, tag="-" + os.path.basename(f)[4:-4] if len(fs) > 1 else "",
                          valgrind="// VALGRIND" in t, **q["cfg"]))
    CHECKS[pid] = dict(parts=parts, rule=q["rule"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid in sorted(P):
            q = P[pid]
            if pid not in CHECKS:
                continue
            assert len(q["title"]) <= 80, (pid, len(q["title"]))
            f.write(json.dumps(dict(id=pid, title=q["title"], statement=q["statement"], quantifier=dict(over=q["quant"][0], text=q["quant"][1]),
                                    why_tests_cant=q["why"], anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]]))) + "\n")
    checks = [dict(property=pid, quick_cmd="python3 run.py " + pid, thorough_cmd="python3 run.py %s --thorough" % pid,
                   technique=P[pid]["technique"], level="exploration", level_note=P[pid]["note"]) for pid in sorted(CHECKS)]
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[],
             notes="No hooks are needed in /repo: everything is observed at the public API, through the loss objects optimizers are given, and by the sanitizers.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
