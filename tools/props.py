import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
GB="src/gradientbooster.rs"; TR="src/tree.rs"; SP="src/splitter.rs"; UT="src/utils.rs"; ND="src/node.rs"; BN="src/binning.rs"; HI="src/histogram.rs"
PYI="py-forust/forust/__init__.py"; PYL="py-forust/src/lib.rs"; PYS="py-forust/forust/serialize.py"
p("C01","Predictions are base score plus the routed leaf of every tree",
 "For every model (trained here or loaded from a file) and every row, predict returns the base score plus, for each of the first prediction_iteration trees (all trees if unset), the weight of the one leaf reached by sending a missing value to the missing child, a value below the threshold left and any other value right. The result for a row does not depend on the other rows of the batch, on their order or on the parallel flag.",
 ["inputs","configurations"],"every model, batch, row, missing marker, prediction_iteration and parallel flag",
 "Tests compare a few trained models with recorded outputs; thresholds hit exactly, adjacent floats, signed zeros, infinities, custom markers and loaded trees are not reached.",
 [GB,TR,ND],[("predict","%s predict/get_prediction_trees"%GB),("row routing","%s get_child_idx; %s predict_leaf"%(ND,TR)),("missing test","%s is_missing"%UT)],
 observe=["GradientBooster::predict","GradientBooster::json_dump"])
p("C02","Training and prediction send every row to the same nodes",
 "In a model trained without row sampling, the cover recorded on every node of every tree equals the total hessian of exactly those training rows that prediction routes to that node, so what the tree learned about a node is about the rows it will serve. Covers of children therefore add up to the cover of their parent and the root covers all rows.",
 ["inputs","configurations"],"every data set (ties, adjacent floats, missing, weights), every bin count, both tree kinds and both growth policies",
 "Training works on bins and prediction on raw values; tests check a handful of data sets where any systematic disagreement at bin edges or in a partition step would have to show up in a rounded prediction.",
 [BN,HI,SP,UT,TR],[("binning by raw value","%s map_bin"%UT),("row partition","%s pivot_on_split, pivot_on_split_exclude_missing"%UT),("histogram subtraction","%s from_parent_child, from_parent_two_children"%HI)],
 state=[("hessian_sum","cover of a node","%s Node"%ND)],observe=["json_dump: nodes[].hessian_sum"])
p("C03","Node weights are the regularised Newton step times the learning rate",
 "In a model trained without row sampling, the weight of the root and of every non-missing child equals learning_rate times the L1/L2-regularised Newton step of the objective over the rows of that node, limited by max_delta_step and by the bounds inherited from monotone constraints (and from the parent when children are forced to bound it). Gradients are those of the objective at the predictions of the previous trees, so an error in any iteration shows in the next one.",
 ["inputs","configurations"],"every data set, objective, weighting and regularisation setting",
 "Tests compare end predictions of a few settings with XGBoost at low precision; combinations of l1, max_delta_step, weights, constraints and later iterations are not covered.",
 [UT,SP,TR,"src/objective.rs"],[("weight formula","%s weight, constrained_weight, bound_to_parent"%UT),("gradients","src/objective.rs calc_grad_hess"),("learning rate","%s as_node"%ND)],
 observe=["json_dump: nodes[].weight_value"])
p("C04","Every split is the best available one and nodes stop only when none is",
 "At every split node no admissible candidate (any observed threshold of any sampled feature, either side for missing values) has a higher gain than the chosen split, and the recorded gain is the true loss reduction of that split. A node below the depth and leaf limits is a leaf only if no admissible split has a positive gain after gamma.",
 ["inputs","configurations"],"every data set and regularisation setting without row sampling and without l1",
 "A missed or mis-scored candidate still gives a plausible tree; tests only pin splits of a few data sets.",
 [SP,HI,ND],[("candidate search","%s best_split, best_feature_split, evaluate_split"%SP),("gain","%s gain_given_weight, cull_gain; %s get_split_gain"%(UT,ND))],
 observe=["json_dump: split_feature, split_value, split_gain"])
p("C05","Growth limits are never exceeded",
 "No fitted tree is deeper than max_depth, has more leaves than max_leaves (a single leaf is always allowed), has a split whose left or right child holds less than min_leaf_weight, or a split whose gain does not exceed gamma; no leaf exceeds max_delta_step times the learning rate; and there are at most `iterations` trees. Trees are well formed, depth-wise growth splits shallower nodes first and loss-guided growth always expands the splittable open node whose own weight reduces the loss most.",
 ["inputs","configurations"],"every data set and limit combination, binary and ternary trees, both growth policies",
 "Limits interact (ternary splits add two leaves, forced leaves, loss-guided order); tests sample single settings.",
 [TR,SP,"src/grower.rs",ND],[("growth loop","%s fit"%TR),("min_leaf_weight and gamma","%s evaluate_split, best_feature_split"%SP),("node queues","src/grower.rs")],
 observe=["json_dump: nodes[]"])
p("C06","Monotone constraints hold for every prediction",
 "With a positive (negative) constraint on a feature, increasing that feature while holding all others fixed, including missing ones, never lowers (raises) the prediction, for any values, on or off the training data, of the whole model and of every prefix of it.",
 ["inputs","configurations"],"every row, every pair of non-missing values of the constrained feature, all constraint maps, tree kinds, growth and missing-node policies (except the post-hoc leaf averaging)",
 "Tests sweep a few features of one data set; bounds must survive through unconstrained splits, missing branches, deep trees and every later tree.",
 [SP,UT,"src/constraints.rs"],[("bounds","%s best_feature_split bounds; %s constrained_weight"%(SP,UT)),("culling","%s cull_gain"%UT)],
 observe=["GradientBooster::predict"])
p("C07","Missing values are handled as configured",
 "Only the configured marker is missing: training and predicting with any other marker substituted gives the same model and predictions, and beside a numeric marker a NaN is refused, never taken for missing. With create_missing_branch every split has its own branch for missing rows, which is split further only if allowed and not for terminate_missing_features, and whose weight follows missing_node_treatment; without it missing rows join the left or right child (the right one where the feature had no missing training values in the node), and without allow_missing_splits no split only separates missing from non-missing.",
 ["inputs","configurations"],"every data set, marker, missing-node treatment and branch option",
 "The options combine to dozens of settings with their own weight rules; tests look at predictions of a few.",
 [SP,UT,BN,TR],[("missing branch","%s MissingBranchSplitter"%SP),("imputation","%s MissingImputerSplitter"%SP),("marker","%s is_missing, map_bin"%UT)],
 observe=["json_dump: missing_node, weight_value","predict"])
p("C08","Results do not depend on threads, timing or repetition",
 "Fitting the same data with the same parameters and seed gives bit-identical trees and predictions on every run, with parallel on or off, with any number of threads, and while other fits and predictions run at the same time in the same process. Concurrent read-only use of one model gives each caller the same answers as sequential use.",
 ["schedules","inputs","configurations"],"every schedule of the worker threads, pool size and interleaving of concurrent users",
 "Tests run each fit once on one schedule, so a result that depends on reduction order or shared state passes.",
 [HI,TR,GB],[("parallel histograms with ordered collect","%s HistogramMatrix::new"%HI),("parallel prediction","%s predict_parallel"%TR),("seeded generator","%s fit_trees"%GB)],
 observe=["json_dump","predict","predict_contributions"])
p("C09","Saving and loading preserves the model",
 "Dumping a model with finite trees to text or to a file and loading it back gives a model with identical parameters, trees, evaluation history, best and prediction iteration and metadata; it predicts, explains and refits bit-identically, and dumping it again gives the same content. Saving over an existing file replaces it.",
 ["inputs","configurations","histories"],"every fitted or unfitted model and every parameter value, including NaN markers, NaN metrics and extreme weights",
 "Tests round-trip one or two models and compare predictions only.",
 [GB,ND,"src/data.rs"],[("serde model format","%s json_dump/from_json/save_booster/load_booster, parse_missing"%GB)],
 observe=["json_dump","from_json","save_booster","load_booster"])
p("C10","Damaged model files are refused and older files still load",
 "Loading a truncated file, a file that is not a model, or one lacking its trees, base score, missing marker, objective or a part of a node, or followed by something else, reports an error; loading any damaged text returns without panic or hang, and a failed save or load reports an error. A file written by an older version, lacking any of the later optional settings, loads with their documented defaults and predicts the same.",
 ["inputs","fault_sequences"],"every truncation point, byte damage, type swap and every subset of omitted optional settings",
 "No test feeds damaged text or leaves out settings systematically.",
 [GB],[("serde defaults","%s default_* functions"%GB),("error mapping","%s from_json/load_booster"%GB)],
 observe=["from_json","load_booster","save_booster"])
p("C11","Contributions add up to the prediction",
 "For every model and row, the Weight, Average and Shapley contributions including the bias column sum to the prediction, and the ProbabilityChange contributions of a logistic model sum to the predicted probability. This holds per row regardless of batch, parallel flag and prediction_iteration, and features the model never uses get exactly zero from every method.",
 ["inputs","configurations"],"every model, row, missing pattern and method",
 "Tests sum contributions of a few fitted models to a few digits.",
 [GB,TR,"src/shapley.rs"],[("row contributions","%s predict_contributions_row_*"%TR),("TreeSHAP","src/shapley.rs tree_shap"),("bias and dispatch","%s predict_contributions*"%GB)],
 observe=["predict_contributions"])
p("C12","Each contribution method returns its documented value",
 "Every entry of the contributions matrix equals what the method's definition gives when computed directly from the trees: path weight changes (Weight), cover-weighted average changes (Average), difference to the other branch, to the cover-weighted midpoint and to the larger branch, change in probability, and exact path-dependent Shapley values. The bias entry is the base score plus, for the methods that sum to the prediction, what the trees' roots predict; a split into a separate missing branch adds nothing to the difference methods, and equal covers add nothing to the larger-branch method.",
 ["inputs","configurations"],"every model (trained or loaded), row and method",
 "Sums can match while single entries are wrong; tests compare entries only against a few recorded models.",
 [TR,"src/shapley.rs",GB],[("definitions","%s ContributionsMethod docs; %s; src/shapley.rs"%(GB,TR))],
 observe=["predict_contributions"])
p("C13","Early stopping and evaluation history are exact",
 "The evaluation history has one row per trained tree and one column per evaluation set, each entry being the chosen (or objective's default) metric of the predictions after that tree. With early stopping, best_iteration is the first iteration with the best value on the last evaluation set, training stops exactly when that many rounds brought no improvement, and predictions use the trees up to and including the best one; evaluation data never influences the trees.",
 ["inputs","histories","configurations"],"every sequence of metric values (ties, NaN, late improvements), number of sets, metric, rounds",
 "Tests use single monotone histories; ties, NaN values and several sets are not covered.",
 [GB,"src/metric.rs"],[("stopping rule","%s fit_trees, update_best_iteration"%GB),("comparison","src/metric.rs is_comparison_better")],
 observe=["evaluation_history","best_iteration","prediction_iteration","predict"])
p("C14","Reported metrics have their textbook values",
 "The value recorded for an evaluation set is the weighted AUC (ties count one half), log loss, root mean squared error or root mean squared log error of that set's predictions under its sample weights, independent of the row order and of scaling all weights; log loss stays finite for every finite prediction. AUC is for labels between 0 and 1, log error only where all its logarithms exist.",
 ["inputs"],"every label, prediction and weight vector, including ties, zero weights, saturated predictions and single-class sets",
 "Tests compare a few vectors with scikit-learn.",
 ["src/metric.rs",GB],[("metric functions","src/metric.rs log_loss, roc_auc_score, root_mean_squared_*")],
 observe=["evaluation_history","metric functions"])
p("C15","Boosting starts at the objective's optimum and only descends",
 "With initialize_base_score the base score is the constant that minimises the weighted training loss, whatever was set before. With squared loss, an unconstrained model fitted on all rows never increases the weighted training loss from one tree to the next.",
 ["inputs","configurations"],"every target and weight vector and every regularised setting with learning rate below two",
 "Tests check one initial value and end metrics.",
 ["src/objective.rs",GB,UT],[("initial value","src/objective.rs calc_init"),("descent","src/objective.rs calc_grad_hess; %s weight"%UT)],
 observe=["base_score","predict with prediction_iteration"])
p("C16","Feature importance equals the split statistics of the trees",
 "For every method, the importance of a feature equals the number of splits on it, or the total or average gain or cover of those splits over all trees of the model (whatever the prediction iteration), and features without splits are absent (zero); normalised values are these divided by their total and sum to one.",
 ["inputs","configurations"],"every model, trained or loaded, binary or ternary, every method",
 "Tests compare one model with XGBoost.",
 [GB,TR],[("importance","%s calculate_feature_importance; %s calc_feature_node_stats"%(GB,TR))],
 observe=["calculate_feature_importance"])
p("C17","Partial dependence is the cover-weighted tree expectation",
 "The partial dependence of a feature at a value equals the base score plus, over the prediction trees, the expectation of the leaf weight when splits on that feature follow the value (or the missing branch if it is missing) and all other splits are taken in proportion to the cover of their branches; it is constant for unused features and equals the prediction for single-feature models.",
 ["inputs","configurations"],"every model, feature and value",
 "Tests compare one feature of one model.",
 ["src/partial_dependence.rs",GB],[("recursion","src/partial_dependence.rs tree_partial_dependence")],
 observe=["value_partial_dependence"])
p("C18","Leaf indices and the text dump describe the trees that predict",
 "For every row and prediction tree the reported leaf index names the leaf whose weight the prediction uses. The text dump lists every node of every tree once, in depth-first order, with its split, children, gain and cover or its leaf value, as `number:leaf=..,cover=..` or `number:[feature < value] yes=..,no=..,missing=..,gain=..,cover=..`, indented six spaces per level, a separate missing child first, then left, then right.",
 ["inputs","configurations"],"every model, row and missing pattern, binary and ternary trees",
 "Tests check shapes or one recorded dump.",
 [TR,ND,GB],[("leaf index","%s predict_leaf_indices"%TR),("display","%s Display; %s Display"%(TR,ND))],
 observe=["predict_leaf_indices","Display of trees"])
p("C19","Binning preserves order and only splits at observed values",
 "Every split threshold is a value that occurs, non-missing, in the training column; a feature uses at most nbins+1 distinct thresholds, and any distinct value of a column with no more than nbins distinct values can be a threshold, while columns with more are cut at their weighted quantiles at multiples of 1/nbins. Binning is monotone: rows with equal values share a bin and smaller values never get a higher bin.",
 ["inputs","configurations"],"every column (ties, adjacent floats, signed zeros, extreme magnitudes), weight vector, bin count and marker",
 "Tests bin one data set.",
 [BN,UT],[("cut points","%s percentiles_or_value, bin_matrix; %s percentiles"%(BN,UT)),("bin lookup","%s map_bin"%UT)],
 observe=["json_dump: split_value","binning::bin_matrix"])
p("C20","Row and column sampling follow their definition and the seed",
 "With random sampling each tree sees each row independently with probability subsample; with GOSS each tree sees all top_rate rows with the largest gradients plus randomly chosen others at rate other_rate whose statistics are scaled by (1-top_rate)/other_rate; with colsample_bytree each tree only splits on a fresh random set of that fraction of the columns (rounded down). Node covers and weights are computed from exactly the chosen rows, all rows' predictions are still updated, and the choice depends on the seed and not on threading.",
 ["inputs","configurations","histories"],"every seed, rate, weighting and iteration",
 "Tests check that sampling trains at all; wrong probability, reuse of one sample across trees or unscaled gradients leave them passing.",
 ["src/sampler.rs",GB,TR],[("samplers","src/sampler.rs"),("per-tree column choice","%s fit_trees"%GB)],
 observe=["json_dump: covers with power-of-two row weights reveal the chosen rows"])
p("C21","Refitting and logging leave no trace of earlier use",
 "Fitting a model again, with the same or other data, parameters or evaluation sets, gives the same result as fitting a fresh model with those parameters, whatever the model was used for before, and read-only use (predict, explain, dump) never changes a model. Turning on progress logging changes nothing but the log.",
 ["histories","configurations"],"every sequence of fits, parameter changes and read-only calls",
 "Tests fit each booster once or twice with equal data.",
 [GB],[("reset","%s reset, fit_trees"%GB),("logging","%s fit_trees"%GB)],
 observe=["json_dump after each step"])
p("C22","Invalid input is refused without side effects",
 "Negative or NaN parameters are refused at construction, and NaN targets, NaN or negative sample weights (also in any evaluation set) are refused at fit with an error; a refused fit leaves a fitted model exactly as it was, in Python also when evaluation frames have other columns, a constraint names no column or a value is not a number, and so does a refused set_params. Valid input of any shape is never refused.",
 ["inputs","configurations"],"every position and kind of invalid value in every argument",
 "Tests try one or two invalid values.",
 [GB,UT,"py-forust/forust/__init__.py"],[("validation","%s validate_parameters, fit; %s validate_*"%(GB,UT)),("state set only after success","py-forust/forust/__init__.py fit, set_params")],
 observe=["GradientBooster::new","fit","Python fit, set_params"])
p("C23","Training and prediction terminate with finite results on legal input",
 "For every legal parameter set with l2 > 0, nbins of at least one and a learning rate of at most one, and every finite data set (constant or all-missing columns, single rows, constant targets, zero or large weights, extreme feature values, targets up to 1e12 whose optimal base score is finite) fit returns without panic in bounded time with finite trees, and predict and every explanation of the fitted model return, with finite predictions; explanations are finite wherever the covers on the way are positive.",
 ["inputs","configurations"],"every legal combination",
 "Tests use well-behaved data.",
 [GB,TR,SP,UT,BN],[("guards","%s evaluate_split; %s pivot_on_split, percentiles"%(SP,UT))],
 observe=["fit","predict","predict_contributions"])
p("C24","Sample weights mean multiplicity",
 "Giving a row an integer weight is the same as repeating it; a row of weight zero has no influence on how the other rows are split and predicted beyond offering its values as thresholds; the order of rows does not matter; training without weights is training with weights of one; and scaling all weights together with the weight-scaled regularisers (l1, l2, gamma, min_leaf_weight) does not change the model. Sums and percentile shares that floating point rounds differently are not meant.",
 ["inputs","configurations"],"every data set and weight vector whose sums are exact in floating point",
 "Tests use unit or one fixed weight vector.",
 ["src/objective.rs",BN,UT],[("weighted gradients","src/objective.rs"),("weighted percentiles","%s percentiles"%UT)],
 observe=["json_dump","predict"])
p("C25","Every way of configuring a model means the same",
 "A parameter has the same effect whether given to the constructor, through its setter, in a loaded model, or left at its documented default, and setting one parameter never changes another.",
 ["configurations"],"every parameter, value and order of setters",
 "Tests set a few parameters one way each.",
 [GB],[("constructor, setters, defaults","%s new, set_*, Default, default_*"%GB)],
 observe=["json_dump of parameters","fitted trees"])
p("C26","No undefined behaviour or data race in native code",
 "Fitting, predicting, explaining and saving execute without out-of-bounds or use-after-free access, without undefined behaviour and without unsynchronised access to shared memory, under any thread count and concurrent use.",
 ["schedules","inputs"],"every workload and schedule",
 "Tests run without instrumentation on one schedule.",
 ["src",PYL],[("safe Rust, rayon","src"),("borrowed numpy buffers","%s"%PYL)],
 observe=["sanitizer and interpreter reports"])
p("C27","Python inputs mean the same in every layout",
 "Through the Python API, fit, predict, contributions and leaf indices give the same results for the same numbers in C or Fortran order, strided, integer, float32 or float64 arrays, and pandas frames of any numeric dtype or index with missing entries as floats; y and sample_weight likewise in any of these forms, unaligned and byte-swapped buffers included, with no weight meaning weight one. Caller-owned arrays are never modified and returned arrays are the caller's.",
 ["inputs","configurations"],"every layout, dtype, stride and container",
 "Tests use one layout each.",
 [PYI,PYL],[("conversion","%s _convert_input_array and friends"%PYI),("buffer import","%s fit/predict"%PYL)],
 observe=["Python GradientBooster methods"])
p("C28","Python models survive saving, pickling and reloading",
 "A fitted Python model saved to a file, and any Python model pickled, copied or cloned, behaves identically afterwards: same predictions, feature names, constraints and terminate-missing features by name, parameters (at the precision they are used in), evaluation history and metadata, and it can be refitted to the same result. A model object fitted again, or given other parameters by set_params and fitted, shows nothing of its earlier fit.",
 ["histories","configurations"],"every parameter set, named or positional features, fitted or not",
 "Tests save and load one or two models and compare predictions.",
 [PYI,PYL,PYS],[("save/load","%s save_booster, load_booster, __getstate__, __setstate__"%PYI)],
 observe=["Python GradientBooster methods"])
p("C29","Python result views agree with the model",
 "Contributions, leaf indices, partial dependence, feature importance, node lists, text dumps, evaluation history and best iteration returned by the Python API agree with the underlying trees, with one row per record in input order, one column per feature in training order plus bias, and feature names in place of numbers where data frames were used. A frame whose column names or order differ from the training frame is refused.",
 ["inputs","configurations"],"every model, method and batch",
 "Tests check shapes or single values.",
 [PYI,PYL],[("result reshaping","%s predict_*, partial_dependence, calculate_feature_importance, get_node_lists"%PYI)],
 observe=["Python GradientBooster methods"])
p("C30","Metadata and object serialisation round-trip",
 "Any text metadata attached to a model is returned unchanged, also after saving and loading, over any history of inserts, fits, saves and loads, and finite scalars, JSON objects and numeric arrays passed through the Python serialisers come back equal in value, type and shape; asking for a missing key is an error.",
 ["inputs","histories"],"every key and value text, array shape and dtype",
 "Tests store one or two values.",
 [GB,PYI,PYS],[("metadata map","%s insert_metadata, get_metadata"%GB),("serialisers","%s"%PYS)],
 observe=["insert_metadata/get_metadata","serialize/deserialize"])
p("C31","Only the order of feature values matters",
 "Replacing the values of a feature through any strictly increasing map (missing values kept) gives the same trees with the mapped thresholds and the same predictions and contributions; columns that hold one single value or nothing but missing values can be added anywhere without changing anything else; and negating a squared loss target (with its base score and monotone constraints) or multiplying it by a power of two (with base score, l1, max_delta_step, and gamma squared) gives the negated or multiplied model. Which of two exactly equal children force_children_to_bound_parent moves is not meant.",
 ["inputs","configurations"],"every data set, every strictly increasing map, every position of added columns",
 "Tests compare no pair of trainings.",
 [BN,UT,SP,HI],[("binning and thresholds","%s; %s percentiles, map_bin"%(BN,UT)),("split search","%s; %s"%(SP,HI))],
 observe=["json_dump","predict","predict_contributions"])
p("C32","Settings act only where they apply; limits and iterations only cut short",
 "A setting that does not apply to a training (sampling rates or seed without sampling, early stopping or metric without evaluation data, evaluation data, metric and logging as far as the trees go, missing-branch settings without a missing branch, constraints or terminated features on columns that do not exist, unconstrained entries, base_score when it is initialised, more bins than distinct values, a missing marker that never occurs, a step, depth or leaf limit that is never reached) leaves every tree bit for bit as it was. A training with fewer iterations is the beginning of the longer one, trees and evaluation history. For one tree, a smaller max_depth (DepthWise) or max_leaves only undoes splits (AverageLeafWeight aside), and a learning rate times a power of two only multiplies the weights.",
 ["inputs","configurations"],"every data set and configuration, every such change",
 "Tests compare no pair of trainings.",
 [GB,SP,TR],[("training loop","%s fit_trees, sample_index"%GB),("tree growth","%s fit"%TR),("splitters","%s"%SP)],
 observe=["json_dump","predict","evaluation_history"])
p("C33","The progress log tells what the training does",
 "With log_iterations N above zero a training logs, through Python's logging, the evaluation values of every N-th iteration (as recorded in the evaluation history, to four decimals), the completion of every N-th iteration out of the requested number, at most one early stop (exactly when training was stopped by early stopping, naming that iteration and its metric), and at the end the number of trees built; iterations appear in order. With log_iterations zero, and outside training, nothing is logged.",
 ["inputs","configurations"],"every training, evaluation data and logging interval",
 "Tests never read the log.",
 [GB,UT,PYL],[("messages","%s fit_trees"%GB),("number format","%s fmt_vec_output"%UT),("bridge to Python logging","%s"%PYL)],
 observe=["logging records","get_evaluation_history","number_of_trees"])
p("C34","Models taken over from XGBoost answer as XGBoost does",
 "A gradient-boosted-tree model trained by XGBoost (squared error or binary logistic, as estimator or plain Booster, with or without feature names, any growth policy, with missing values) and taken over by forust gives XGBoost's margin predictions, leaf indices, Shapley and approximate contributions and feature importances on every row of single-precision values (up to single-precision rounding), under the right feature names, and keeps them when saved or pickled; a model whose trees were pruned (gaps in the node numbers) is refused.",
 ["inputs","configurations"],"every such XGBoost model and every row",
 "Tests take over three models of one data set, all with feature names.",
 [PYI],[("conversion","%s _from_xgboost_model, _xgboost_tree_to_nodes, Node._from_xgboost_node"%PYI)],
 observe=["predict","predict_leaf_indices","predict_contributions","calculate_feature_importance"])
for q in P: assert len(q["title"])<=80,q["title"]
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(q) for q in P)+"\n")
