"""Single table of properties: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note, observe=observe or [],
                  claimed=claimed, reason=reason))

L = "lingam/"
prop("C01", "Fitted causal orders are permutations and edges never contradict them",
 "Every successfully fitted order-based model (direct, ICA-based, high-dimensional, nonlinear, multi-group, vector-autoregressive, ARMA and longitudinal) reports a causal order that contains every variable exactly once. Every reported instantaneous edge runs from an earlier to a later variable of that order, so the graph is acyclic with an empty diagonal, and every weight is finite. The same holds for every bootstrap replicate.",
 ["inputs", "configurations"], "all finite data sets with non-degenerate columns, all estimator options, all bootstrap resamples",
 "The tests only look at a handful of fixed data sets and mostly only check that fit returns; the guarantee is for every data set, including Gaussian, cyclic, confounded and tiny ones on which the model is misspecified.",
 [L+"base.py", L+"direct_lingam.py", L+"ica_lingam.py", L+"high_dim_direct_lingam.py", L+"resit.py", L+"multi_group_direct_lingam.py", L+"var_lingam.py", L+"varma_lingam.py", L+"longitudinal_lingam.py"],
 [("order search and adjacency estimation", L+"base.py:_estimate_adjacency_matrix"), ("ICA order from approximately triangular matrix", L+"ica_lingam.py:_estimate_causal_order")],
 "runtime invariant monitor on every fit (permutation, triangularity, finiteness, acyclicity)",
 "Held on every fit produced by the workload; assumes nothing about which order is right.")

prop("C02", "Prior knowledge is honoured by every estimator that accepts it",
 "When prior knowledge forbids a path between two variables, no fitted model contains a direct edge for that pair, and where it forces an ordering (a required path, or a one-directional prohibition) and is not applied softly, the causal order respects it. Prior knowledge that contradicts itself or has the wrong shape is refused with an error instead of being silently dropped. The matrix built from exogenous, sink, path and no-path lists says exactly what was asked.",
 ["inputs", "configurations"], "all prior-knowledge matrices and pair lists over all data sets and prior-aware estimators",
 "Tests use two or three hand-written matrices over one data set; the guarantee ranges over all matrices, including ones in conflict with the data.",
 [L+"direct_lingam.py", L+"multi_group_direct_lingam.py", L+"bottom_up_parce_lingam.py", L+"camuv.py", L+"multi_group_camuv.py", L+"longitudinal_lingam.py", L+"utils/__init__.py", L+"tools/__init__.py"],
 [("partial orders", L+"direct_lingam.py:_extract_partial_orders"), ("candidate restriction", L+"direct_lingam.py:_search_candidate"), ("predictor exclusion", L+"base.py:_estimate_adjacency_matrix")],
 "runtime monitor of fitted models against the declared constraints", "Held on the generated matrices (random, adversarial to the data, contradictory) for every prior-aware estimator.")

prop("C03", "Reported edge weights are least-squares coefficients in the data's own units",
 "Each non-zero coefficient reported by a linear estimator equals the ordinary least-squares coefficient (with intercept) of the effect on the parents retained for it, in the units of the data passed in. For the order-based estimators the retained parents are those selected by the BIC adaptive lasso among the admissible earlier variables; repetitive causal discovery retains the parents its tests found. All other coefficients are exactly zero. (With no more samples than variables the high-dimensional estimator regularises instead.)",
 ["inputs"], "all data sets, units, numeric types, orders and prior-knowledge restrictions",
 "Tests compare a few coefficients on one data set with loose bounds; the relation must hold for every data set, unit and pruning outcome.",
 [L+"utils/__init__.py", L+"base.py", L+"high_dim_direct_lingam.py", L+"rcd.py", L+"bottom_up_parce_lingam.py", L+"multi_group_rcd.py"],
 [("adaptive lasso", L+"utils/__init__.py:predict_adaptive_lasso")],
 "differential runtime monitor: observed weights vs an independent regression reference", "Held for every fitted row checked; pruning decisions nearer to the BIC boundary than rounding error are counted as inconclusive.")

prop("C04", "Total effects equal the sum over directed paths and the adjusted regression",
 "The total effect computed from a weighted acyclic graph equals the sum over all directed paths of the product of their weights, and the total effect estimated from data equals the regression coefficient of the effect on the cause adjusted for the cause's parents in the fitted model. Asking for an effect against the fitted order warns, and a model with unresolved or confounded parents reports an undefined effect instead of a number. Multi-group models report one such effect per data set.",
 ["inputs"], "all weighted DAGs, all variable pairs, all data sets",
 "Tests check one pair on one graph; cancellation, long paths, zero paths and reversed pairs are unbounded families.",
 [L+"utils/__init__.py", L+"base.py", L+"multi_group_direct_lingam.py", L+"rcd.py", L+"bottom_up_parce_lingam.py", L+"multi_group_rcd.py"],
 [("path sum", L+"utils/__init__.py:calculate_total_effect"), ("adjusted regression", L+"base.py:estimate_total_effect")],
 "reference-model monitor (matrix inverse of I-B, independent OLS)", "Held on all pairs of the generated graphs/models.")

prop("C05", "Direct search always takes the most independent admissible variable next",
 "At every step of the direct search, single- or multi-group, the next variable of the causal order is the admissible candidate whose independence measure against the residuals of the remaining variables is the best (likelihood-ratio measure or kernel measure, multi-group measures weighted by sample size). Effects of variables already ordered are removed by linear regression before they are compared.",
 ["inputs", "configurations"], "all data sets, measures, group structures and (hard or soft) prior knowledge",
 "Tests check that the right order comes out of one easy data set, which many wrong measures would also produce.",
 [L+"direct_lingam.py", L+"multi_group_direct_lingam.py"],
 [("measure and argmax", L+"direct_lingam.py:_search_causal_order"), ("kernel measure", L+"direct_lingam.py:_search_causal_order_kernel"), ("groups", L+"multi_group_direct_lingam.py:_search_causal_order")],
 "offline trace checker: each step of the observed order is replayed against an independent score model", "Each observed order is a trace whose every step is checked; steps tied within rounding are accepted either way.")

prop("C06", "Estimates do not depend on units, labels, row order or container type",
 "Shifting or rescaling variables rescales the estimated coefficients accordingly and leaves the estimated graph unchanged (direct, multi-group direct, RCD, bottom-up and longitudinal estimators; rescaling only for VAR). Relabelling the columns relabels the result of estimators whose search does not follow label order (direct, multi-group direct, high-dimensional, bottom-up, VAR, longitudinal, and the order of the nonlinear one). Row order does not matter to cross-sectional estimators, and for every estimator the same numbers passed as integers, floats, lists, data frames or differently laid-out arrays give the same answer.",
 ["inputs"], "all data sets and all affine rescalings, column relabellings, row shuffles and container types",
 "Tests never compare two related runs; the relation quantifies over pairs of inputs.",
 [L+"direct_lingam.py", L+"multi_group_direct_lingam.py", L+"base.py", L+"rcd.py", L+"multi_group_rcd.py", L+"camuv.py", L+"multi_group_camuv.py", L+"bottom_up_parce_lingam.py", L+"var_lingam.py", L+"utils/__init__.py", L+"hsic.py"],
 [("standardisation", L+"direct_lingam.py:_search_causal_order"), ("input conversion", "sklearn check_array at each fit")],
 "metamorphic runtime monitor over pairs of real executions", "Held on the generated pairs; decisions nearer to a tie than rounding are inconclusive.")

prop("C07", "Caller's data and configuration objects are never modified",
 "No estimator, query, plotting or simulation call changes any array, list, dictionary or data frame that the caller passed in, and result objects are not changed by querying them. A caller can therefore reuse its inputs and results after any sequence of calls.",
 ["inputs", "histories"], "all public entry points, input containers and call sequences",
 "No test compares its inputs before and after a call.",
 [L+"*.py", L+"utils", L+"tools", L+"experimental"],
 [("defensive copies", "np.copy / deepcopy at each entry point")],
 "argument write-sanitizer: deep digests of every argument and result before/after each hooked public call", "Every public call of the workload is observed.")

prop("C08", "Results depend only on the arguments and seed, not on earlier calls",
 "Fitting the same data with the same options and seed gives the same result on a fresh model, on a model fitted before on other data, after a bootstrap, after failed calls, and whatever was queried in between. A refit reflects only the new data. (A bootstrap itself leaves the model fitted to its last resample until the next fit.)",
 ["histories", "inputs"], "all sequences of fit, refit, bootstrap, query and failing calls on one instance",
 "Tests build a new model for every call; stale state only shows in call sequences.",
 [L+"var_lingam.py", L+"varma_lingam.py", L+"lim.py", L+"direct_lingam.py", L+"longitudinal_lingam.py", L+"causal_based_simulator.py", L+"experimental/oct.py"],
 [("state assigned in fit", "every fit method")],
 "history monitor: random call sequences on one instance compared with fresh instances", "Held on the generated histories.")

prop("C09", "Every bootstrap replicate is the model fitted to its recorded resample",
 "Each bootstrap replicate's graph is exactly what the estimator returns for the resample of the original rows it drew, with as many rows as the original and drawn with replacement independently for each replicate. Where the drawn row indices are reported they reproduce the replicate, and the total effects reported for it are those of that replicate's graph, under the replicate's order.",
 ["inputs", "configurations", "histories"], "all estimators with a bootstrap, all data sets and numbers of replicates",
 "Tests only check result shapes.",
 [L+"bootstrap.py", L+"multi_group_direct_lingam.py", L+"bottom_up_parce_lingam.py", L+"rcd.py", L+"multi_group_rcd.py", L+"var_lingam.py", L+"varma_lingam.py", L+"longitudinal_lingam.py"],
 [("resampling loop", L+"bootstrap.py:BootstrapMixin.bootstrap")],
 "event-log monitor: hooked fit calls inside bootstrap are recorded and replayed; conservation of rows", "Each replicate observed is re-derived from its recorded resample.")

prop("C10", "Bootstrap summaries are exact tallies of the replicates",
 "Edge counts, graph counts, edge probabilities and total-effect summaries are exactly what a direct count over the stored replicates gives: an edge counts when its absolute weight exceeds the threshold, counts never exceed the number of replicates, medians are over the non-zero effects, signs are split when asked. Results are sorted by decreasing frequency and truncation keeps the most frequent.",
 ["inputs", "configurations"], "all collections of replicates, thresholds, truncations and sign splits, for cross-sectional, time-series and longitudinal results",
 "Tests check shapes and a few values of one bootstrap; ties, sign flips, undefined entries and thresholds are not enumerated.",
 [L+"bootstrap.py", L+"longitudinal_lingam.py", L+"var_lingam.py", L+"varma_lingam.py"],
 [("tallies", L+"bootstrap.py:BootstrapResult"), ("tallies per time point", L+"longitudinal_lingam.py:LongitudinalBootstrapResult")],
 "reference-model monitor: brute-force recount of stored replicates", "Held on random and adversarial replicate collections.")

prop("C11", "Path queries list every directed path once, with its exact effect",
 "A path query on an acyclic graph returns exactly the set of directed paths between the two variables whose every edge exceeds the threshold, each once, with the product of its weights, and a graph with a cycle that can be reached from the start without passing the end is refused. Bootstrap path queries return, for each path, the fraction of replicates containing it and the median of its effect, most frequent first, also across lags and time points.",
 ["inputs"], "all graphs, pairs of variables, lags, time points and thresholds",
 "Tests check one or two graphs; the claim is over all graphs.",
 [L+"utils/__init__.py", L+"bootstrap.py", L+"var_lingam.py", L+"varma_lingam.py", L+"longitudinal_lingam.py"],
 [("depth-first enumeration", L+"utils/__init__.py:find_all_paths"), ("lag unrolling", L+"var_lingam.py:VARBootstrapResult.get_paths")],
 "reference-model monitor: independent path enumeration", "Held on the generated graphs and replicate collections.")

prop("C12", "The kernel independence test computes the documented statistic and p-value",
 "The HSIC test returns the statistic and gamma-approximated p-value of its two samples under the documented bandwidth rules. It is symmetric in its arguments, unaffected by shifting either sample or reordering the pairs jointly (up to the bandwidth subsample), has p in [0,1] and a non-negative statistic, and does not alter its inputs.",
 ["inputs"], "all pairs of samples, dimensions, sizes and bandwidth methods",
 "No test targets the statistic itself; every confounder-aware estimator depends on it.",
 [L+"hsic.py"], [("statistic", L+"hsic.py:hsic_test_gamma"), ("bandwidth", L+"hsic.py:get_kernel_width")],
 "reference-model monitor (explicit double-centred kernels) plus metamorphic relations", "Relative agreement 1e-6 with an independent implementation.")

prop("C13", "The kernel correlation measure computes the regularised canonical correlation",
 "The F-correlation of two samples is the largest regularised kernel canonical correlation of their low-rank Gaussian kernels with the documented bandwidth and regularisation. It lies in [0,1] up to the approximation error, is symmetric, and is unaffected by shifting or rescaling either sample.",
 ["inputs"], "all pairs of samples",
 "Tests compare a couple of values; accuracy of the low-rank approximation is never compared with the exact quantity.",
 [L+"utils/_f_correlation.py"], [("incomplete Cholesky and eigenproblem", L+"utils/_f_correlation.py:f_correlation")],
 "reference-model monitor: full-rank kernel CCA", "Agreement within the approximation tolerance.")

prop("C14", "Residual-independence p-values test the fitted model's own residuals",
 "For every estimator that offers it, entry (i,j) of the residual-independence matrix is the HSIC p-value between the fitted model's residuals of variables i and j on the given data, computed per group, lag structure or time point as applicable. The matrix is symmetric with a zero diagonal, and pairs involving a variable of a relation the model marks as unresolved are reported as undefined. The nonlinear estimator always reports zeros, as documented.",
 ["inputs", "configurations"], "all fitted models and data sets",
 "Tests check only the shape.",
 [L+"base.py", L+"multi_group_direct_lingam.py", L+"rcd.py", L+"multi_group_rcd.py", L+"bottom_up_parce_lingam.py", L+"var_lingam.py", L+"varma_lingam.py", L+"longitudinal_lingam.py", L+"resit.py"],
 [("residuals and test", L+"base.py:get_error_independence_p_values")],
 "reference-model monitor: residuals rebuilt from the public matrices, independent HSIC", "Held on the fitted models of the workload.")

prop("C15", "Repetitive causal discovery reports only what its independence tests support",
 "The reported ancestor sets, direct edges and confounded pairs of repetitive causal discovery (single or multi-group) are exactly those its documented test sequence yields for the data and options: ancestors are found by subset regressions and independence tests, parents are ancestors that stay dependent, and correlated residuals mark a pair as confounded. Confounded pairs are marked undefined symmetrically, no two variables are ancestors of each other and every direct parent is an ancestor.",
 ["inputs", "configurations"], "all data sets, significance levels, measures and options",
 "Tests only check one confounded data set per option.",
 [L+"rcd.py", L+"multi_group_rcd.py", L+"utils/_rcd.py"],
 [("ancestors", L+"rcd.py:_extract_ancestors"), ("parents", L+"rcd.py:_extract_parents"), ("confounders", L+"rcd.py:_extract_vars_sharing_confounders")],
 "reference-model monitor: independent re-execution of the test sequence", "Decisions whose test margin is below rounding are inconclusive.")

prop("C16", "Bottom-up search returns unresolved blocks instead of unsupported orders",
 "The bottom-up partially-confounded search orders a variable last only if its residual passes the independence test against the other remaining variables, and otherwise reports the remaining variables as one unresolved block at the head of the order with undefined mutual effects. The order covers every variable once, undefined entries are exactly the mutual ones of unresolved blocks, and all others are regression coefficients on earlier variables.",
 ["inputs", "configurations"], "all data sets, significance levels, measures, regressors and prior knowledge",
 "Tests check shapes on one data set.",
 [L+"bottom_up_parce_lingam.py"], [("bottom-up search", L+"bottom_up_parce_lingam.py:_search_causal_order")],
 "reference-model monitor: independent re-execution of the search with margins", "Decisions whose test margin is below rounding are inconclusive.")

prop("C17", "Additive-model discovery separates direct causes from unresolved pairs",
 "The additive-model estimators with unobserved variables (single and multi-group) report a matrix whose entries are 0, 1 or undefined; undefined entries come in symmetric pairs and never coexist with an edge, and no variable is its own cause. The reported edges and undefined pairs are those that the documented greedy test sequence yields for the data, significance level and parent limit.",
 ["inputs", "configurations"], "all data sets, significance levels, parent limits and prior knowledge",
 "Tests only check one small data set.",
 [L+"camuv.py", L+"multi_group_camuv.py"], [("parent search", L+"camuv.py:_get_parents"), ("undirected pairs", L+"camuv.py:fit")],
 "structural monitor plus independent re-execution of the greedy search", "Decisions whose test margin is below rounding are inconclusive.")

prop("C18", "ICA, high-dimensional and nonlinear searches order variables by their criteria",
 "The ICA-based order is one in which the unmixing matrix estimated with the given seed and iteration limit becomes closest to triangular by discarding its smallest entries; the high-dimensional order takes at each step the variable with the smallest worst-case moment statistic, minimised over admissible conditioning sets; the nonlinear order takes at each step as last the variable whose regression residual is least dependent on the rest, and keeps a parent only if it is needed. The graphs reported follow from these orders.",
 ["inputs", "configurations"], "all data sets, seeds, iteration limits, in-degree and moment settings, regressors",
 "Tests only check that an easy data set is recovered.",
 [L+"ica_lingam.py", L+"high_dim_direct_lingam.py", L+"resit.py"],
 [("ICA order", L+"ica_lingam.py:fit"), ("moment statistics", L+"high_dim_direct_lingam.py:_get_prune_stats"), ("residual test order", L+"resit.py:_estimate_order")],
 "offline trace checker of observed orders against independent criteria", "Steps tied within rounding are inconclusive.")

prop("C19", "Autoregressive models satisfy their structural equations",
 "For a fitted vector-autoregressive model, the lagged effect matrices equal (I minus instantaneous effects) times the reduced-form coefficients when not pruned, and when pruned every row is the adaptive-lasso regression of a variable on its earlier contemporaneous and all lagged variables of the chosen lag. The lag is the one the chosen criterion selects, residuals are those of the reduced form, and total effects across lags are the adjusted regression or path-sum effects.",
 ["inputs", "configurations"], "all stable series, lags, criteria, supplied coefficients, pruning modes and inner estimators",
 "Tests check shapes on one series.",
 [L+"var_lingam.py"], [("fit", L+"var_lingam.py:fit"), ("pruning", L+"var_lingam.py:_pruning"), ("lag matrices", L+"var_lingam.py:_calc_b")],
 "reference-model monitor: identities recomputed from data", "Held on the generated series.")

prop("C20", "ARMA models satisfy their structural equations",
 "For a fitted vector-ARMA model, the structural autoregressive and moving-average matrices are the reduced-form ones transformed by the instantaneous effects, psi_h = (I - psi_0) phi_h and omega_h = (I - psi_0) theta_h (I - psi_0)^{-1} when not pruned. Residuals satisfy the reduced-form recursion, the order is the one selected by the criterion, and total effects across lags adjust for the parents of the lagged cause.",
 ["inputs", "configurations"], "all stable series, orders, criteria, supplied coefficients and pruning modes",
 "Tests check shapes on one series.",
 [L+"varma_lingam.py"], [("fit", L+"varma_lingam.py:fit"), ("structural matrices", L+"varma_lingam.py:_calc_psi_and_omega")],
 "reference-model monitor: identities recomputed from data", "Held on the generated series.")

prop("C21", "Longitudinal effects are attached to the right time point and lag",
 "In a fitted longitudinal model the matrix reported for time t and lag k relates the variables at t to those k steps earlier: applied to data that follow a known longitudinal model it reproduces that model's lag-k effects at lag k. Time points before the first modelled one are reported undefined, and residuals, residual tests, total effects and bootstrap results use the same indexing.",
 ["inputs", "configurations"], "all longitudinal data sets, numbers of time points, lags and prior knowledge",
 "Tests check shapes with one lag.",
 [L+"longitudinal_lingam.py"], [("stacked regression", L+"longitudinal_lingam.py:fit"), ("indexing", L+"longitudinal_lingam.py:_compute_residuals")],
 "reference-model monitor on generated longitudinal series", "Held on the generated series.")

prop("C22", "Intervention effects equal those of the intervened structural model",
 "The estimated effect of each variable on a prediction equals the absolute change of the expected prediction (for classifiers, of the difference of the first two class probabilities) in the structural model when the variable is set to its mean and its mean plus or minus one standard deviation, whatever the causal model and the fitted predictor. The optimal intervention returned for a desired prediction makes the predicted value of the intervened structural model equal the desired value.",
 ["inputs", "configurations"], "all causal graphs, linear, logistic and general predictors, intervened variables and observations",
 "Tests check ranges on a single data set.",
 [L+"causal_effect.py"], [("intervened propagation", L+"causal_effect.py:estimate_effects_on_prediction"), ("optimal intervention", L+"causal_effect.py:estimate_optimal_intervention")],
 "reference-model monitor: truncated-factorisation (do) evaluation of the structural model", "Held on the generated graphs and predictors.")

prop("C23", "Simulated data obey the trained structural equations and requested changes",
 "Data simulated without changes reproduce, for every variable with causes, the trained model's prediction from the simulated causes plus the trained residuals, and reuse the training values of exogenous variables. Requested exogenous values and replaced models take effect for exactly the named variables and propagate only to their descendants, cross-sectionally and along time lags, where lagged variables keep their training values. Discrete variables predicted by a trained model only take values seen in training.",
 ["inputs", "configurations", "histories"], "all graphs, time-series graphs, models and change requests",
 "Tests check a few scenarios for shape.",
 [L+"causal_based_simulator.py"], [("train", L+"causal_based_simulator.py:train"), ("run", L+"causal_based_simulator.py:run")],
 "trace monitor: simulated rows are re-evaluated equation by equation with recorded model calls", "Held on the generated graphs and change requests.")

prop("C24", "Graph helper queries agree with the graph they are given",
 "Sink and exogenous variable lists, distances from root nodes and effect removal agree with the definition on the given weighted graph or data, whatever the signs or cancellations of its weights: a variable is exogenous exactly if it has no incoming edge, a sink exactly if it has no outgoing edge, distances are shortest edge counts from any root, and data after effect removal are uncorrelated with the removed variables and unchanged elsewhere.",
 ["inputs"], "all weighted graphs including cancelling weights, and all data sets",
 "Tests use positive weights on one graph.",
 [L+"utils/__init__.py"], [("helpers", L+"utils/__init__.py:calculate_distance_from_root_nodes")],
 "reference-model monitor", "Held on the generated graphs.")

prop("C25", "Drawn and printed graphs show exactly the edges of the input",
 "The graph description produced for an adjacency matrix contains exactly one node per variable and one labelled edge, cause to effect, for each coefficient above the limit, plus one bidirected edge per unresolved pair. Highlighted paths, cycles, predictions and clusters decorate exactly the elements they denote, and printed summaries list exactly the given directions and percentages.",
 ["inputs", "configurations"], "all adjacency matrices, labels, limits and decoration options",
 "Tests only check that a drawing is produced.",
 [L+"utils/__init__.py"], [("DOT", L+"utils/__init__.py:make_dot"), ("highlight", L+"utils/__init__.py:make_dot_highlight"), ("print", L+"utils/__init__.py:print_causal_directions")],
 "reference-model monitor: emitted DOT source parsed back and compared with the input graph", "Held on the generated matrices.")

prop("C26", "Mixed-data estimation returns an acyclic graph that its search justifies",
 "The mixed continuous/discrete estimator returns, with its default optimiser settings, a zero-diagonal finite acyclic weight matrix, and does so independently of earlier fits on the same object. With the local search only orientations that do not lower its penalised likelihood are kept, and edges weaker than the threshold are dropped.",
 ["inputs", "configurations", "histories"], "all mixed data sets and options",
 "Tests check that one call runs.",
 [L+"lim.py"], [("global optimisation", L+"lim.py:_estimate_LiM"), ("local search", L+"lim.py:fit")],
 "runtime invariant and history monitor", "Held on the generated mixed data.")

prop("C27", "Latent-factor estimation returns consistent measurement and structural parts",
 "The latent-factor estimators return a loading matrix in which each observed variable loads only on its own factor and an acyclic structural matrix among factors; for several domains the parts refer to shared factors. The result depends only on data, options and seed.",
 ["inputs", "configurations"], "all data sets and factor assignments",
 "Tests check that one call runs.",
 [L+"lina.py"], [("fit", L+"lina.py:fit")],
 "runtime invariant monitor", "Held on the generated data.")

prop("C28", "Imputation bootstrap keeps observed cells and fits what it imputed",
 "Every completed data set returned by the imputation bootstrap equals its resample of the original rows wherever the original cell was observed, and only missing cells are filled. Each replicate's order and graphs are those a joint multi-group fit gives on its completed data sets, honouring prior knowledge and user-supplied imputation and discovery components.",
 ["inputs", "configurations"], "all missingness patterns, sizes, priors and user components",
 "Tests check shapes.",
 [L+"tools/__init__.py"], [("loop", L+"tools/__init__.py:bootstrap_with_imputation")],
 "conservation monitor over the recorded resamples and completed data sets", "Held on the generated patterns.")

prop("C29", "Experimental generator and tuner follow their specification",
 "The experimental data generator reproduces each variable by its trained model from the generated causes plus noise, honouring interventions and adjustments. The out-of-sample tuner reports for every candidate the prediction scores of that candidate's Markov blankets, selects the sparsest candidate not significantly worse than the best, and is reproducible from its seed.",
 ["inputs", "configurations"], "all graphs, candidate sets and seeds",
 "Tests check that calls run.",
 [L+"experimental/cdg.py", L+"experimental/oct.py"], [("generator", L+"experimental/cdg.py"), ("tuner", L+"experimental/oct.py")],
 "trace monitor", "Held on the generated graphs.")

prop("C30", "Likelihood and fit-index helpers evaluate exactly the given model",
 "The local log-likelihood and disturbance variance helpers evaluate the residual of the named variable under the given coefficients and constant with the documented density. The fit-index helper evaluates precisely the structural model encoded by the matrix: same result under relabelling of variables, fixed coefficients as given, unresolved pairs as latent common causes.",
 ["inputs"], "all matrices and data sets", "Tests check shapes.",
 [L+"utils/__init__.py"], [("likelihood", L+"utils/__init__.py:likelihood_i"), ("fit indices", L+"utils/__init__.py:evaluate_model_fit")],
 "reference-model monitor", "Held on the generated matrices.")

prop("C31", "Invalid arguments are refused with an error, never silently used",
 "Every documented parameter restriction is enforced: non-finite or mis-shaped data, wrong numbers of groups or features, out-of-range significance levels, counts, lags, indices and thresholds, and objects lacking required methods raise an error at construction or at the call. Valid boundary values are accepted.",
 ["inputs", "configurations"], "all public constructors and methods with each documented restriction violated or met at its boundary",
 "Tests cover a subset of the restrictions with one value each.",
 [L+"*.py"], [("argument checks", "constructors and entry points")],
 "fault-injection monitor: invalid-argument matrix over the public API", "Every listed restriction is exercised on each run.")

prop("C32", "Nonlinear effect plots show parent-adjusted means of each replicate",
 "The nonlinear causal-effect plot for a pair of variables shows, for the given graph or each bootstrap replicate, the mean prediction of the effect when the cause is set to each grid value, by the estimator trained on that replicate's resampled rows with the cause and its parents in that replicate's graph (other than the effect) as explanatory variables, averaged over those rows; one panel per class of a categorical effect. Percentile lines are those of the plotted means, and nothing else in the data or a given figure is changed.",
 ["inputs", "configurations"], "all data sets, replicate collections, pairs, grids and regressors",
 "Tests only check that a figure is produced.",
 [L+"utils/_visualize_nonlinear_causal_effect.py"], [("grid means", L+"utils/_visualize_nonlinear_causal_effect.py:visualize_nonlinear_causal_effect")],
 "trace monitor: recorded regressor calls and drawn curves re-evaluated", "Held on the generated collections.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"] or ["public API boundary"],
                            "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(V, "mon", "props", p["id"].lower() + ".py"))
        if p["claimed"] and have:
            checks.append({"property": p["id"],
                "quick_cmd": f"./check.sh {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "runtime monitoring: " + p["technique"],
                "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["reason"] or "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "Monitors attach from /verif at the public API boundary (wrapping at run time); /repo carries no hooks."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties;", len(checks), "checks")

main()
