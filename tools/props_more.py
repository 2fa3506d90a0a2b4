SMF = ["causalnex/structure/structuremodel.py"]

P("C30", "Edge origins are always valid and always the one last given",
  "After any history of adding edges (singly, in bulk, weighted), removing, copying, subgraphing, reversing and converting structure models, every edge carries exactly one origin among unknown, learned and expert: the one last given for it (unknown if none was given), together with the attributes last given. "
  "An invalid origin is rejected with the documented error, and edges_with_origin lists exactly the edges having that origin.",
  ["histories", "inputs"], "all operation histories up to the stated length over the stated labels, all weights",
  "Tests check each operation once on a fresh graph.",
  SMF, [("origin validation and default", "structuremodel.py:StructureModel.add_edge, add_edges_from, add_weighted_edges_from"), ("origin filter", "structuremodel.py:edges_with_origin")],
  "Operation histories forked, weights symbolic; compared with a reference map of edges.")

P("C31", "Threshold pruning removes exactly the edges below the threshold",
  "Removing edges below a threshold removes exactly the edges whose absolute weight is below it; edges at or above it, all nodes and all other attributes are unchanged.",
  ["inputs", "configurations"], "all real weights and thresholds, all structures up to the stated size",
  "Tests use a few fixed weights; ties with the threshold and negative weights are sampled.",
  SMF, [("absolute-value filter", "structuremodel.py:remove_edges_below_threshold")],
  "Weights and threshold symbolic, structures forked.")

P("C32", "Pruning until acyclic yields a DAG by removing only the weakest edges",
  "Pruning a structure until it is acyclic always ends with an acyclic graph; every removed edge is at most as strong (in absolute weight) as every kept edge, nothing more is removed once the graph is acyclic, and kept edges, nodes and attributes are unchanged.",
  ["inputs", "configurations"], "all real weights (ties included), all structures up to the stated size",
  "Tests use two or three fixed graphs.",
  SMF, [("repeated removal of the weakest edge", "structuremodel.py:threshold_till_dag")],
  "Weights symbolic, structures forked; ties may be broken either way.")

P("C33", "Largest and target subgraphs are whole components with everything preserved",
  "The largest subgraph is a weakly connected component with the most edges (nothing if the model has no edges) and the target subgraph is the component containing the requested node; either contains all nodes, edges and attributes of its component and nothing else. "
  "Changing the result never changes the model, and a node that is not in the model is rejected with the documented error.",
  ["configurations", "inputs"], "all structures up to the stated size, several label kinds, all weights",
  "Tests compare a few hand-drawn graphs.",
  SMF, [("component selection", "structuremodel.py:get_largest_subgraph, get_target_subgraph")],
  "Structures forked, weights symbolic; compared with a reference component computation.")

P("C50", "Discretised values land in the bucket defined by the documented split points",
  "For every real data set, the split points learned by the uniform, quantile, outlier and percentile methods are the documented functions of the fitted data (and only of the most recent fit), the fitted data are not modified, and every value is mapped to the number of split points less than or equal to it; with fixed split points the given points are used unchanged and fitting is refused. "
  "Arguments are accepted exactly when documented as valid: split points not decreasing, percentiles within range and not decreasing, the argument of the chosen method present.",
  ["inputs", "histories"], "all real data, new values, split points and percentiles up to the stated sizes",
  "Tests transform a few fixed vectors; values equal to a split point, repeated points and refitting are barely sampled.",
  ["causalnex/discretiser/discretiser.py"], [("learning split points", "discretiser.py:Discretiser.fit"), ("bucket lookup", "discretiser.py:Discretiser.transform"), ("argument validation", "discretiser.py:Discretiser.__init__")],
  "Data, points and percentiles symbolic; quantile and digitize replaced by their definitions.")

P("C51", "Lagged data pair each time with exactly its own predecessors",
  "For every collection of time series (arbitrary start, gaps and values), the lagged table contains one row for each observed time whose p predecessors are all observed in the same series, in order, and that row holds the values of every variable at that time and at each lag under the documented column layout and names; no row spans a gap or two series and no complete row is lost. "
  "Inputs that are not increasing in time, not numeric, of differing columns or types, empty, or not fitted are rejected with the documented errors, and the input frames are not modified.",
  ["inputs", "configurations"], "all entries, index starts and gaps up to the stated lengths",
  "Tests use a few short frames with one gap.",
  ["causalnex/structure/transformers.py"], [("splitting at gaps and stacking lags", "transformers.py:DynamicDataTransformer"), ("index and column validation", "transformers.py:_check_input_from_pandas")],
  "Entries and index symbolic; pandas modelled by stubs/pandas.")

P("C52", "Data-type schemas are validated and map variables to columns one to one",
  "Exactly the documented data types (binary, continuous, count, categorical:N with N a positive integer) are accepted, variables without a type get the default, and the caller's schema is not modified. "
  "The variables' columns partition the feature columns, every feature name leads back to its own column, a categorical variable has one feature per category, all accessors agree, and schemas whose feature names would coincide are rejected.",
  ["inputs", "configurations"], "all type combinations and orders up to the stated number of variables",
  "Tests check one or two schemas.",
  ["causalnex/structure/categorical_variable_mapper.py"], [("type validation", "categorical_variable_mapper.py:validate_schema"), ("index bookkeeping", "categorical_variable_mapper.py:VariableFeatureMapper")],
  "Schemas chosen by the solver from listed types and labels; compared with a reference map.")

P("C80", "Plots overlay attributes in the documented order and never change the model",
  "For every combination of overlays, each plotted node and edge carries its model attributes overridden in turn by the default style, the attributes for all nodes or edges, and its own attributes; the graph carries the default style overridden by the given attributes and the requested layout is run once. "
  "Neither the model, the arguments nor the default styles are changed, so a later plot shows nothing of an earlier one, and nodes of any hashable kind can be plotted.",
  ["inputs", "histories"], "all combinations of the stated overlays with arbitrary values",
  "Tests check one overlay at a time.",
  ["causalnex/plots/plots.py"], [("attribute overlay", "plots.py:plot_structure, _add_attributes")],
  "Presence of each overlay forked, values symbolic; pygraphviz replaced by a recorder.")

INF = ["causalnex/inference/inference.py", "causalnex/ebaybbn/bbn.py"]

P("C10", "Engine queries equal exact conditioning on the fitted tables",
  "For every fitted Bayesian network and all observations of positive probability, the inference engine's answer contains exactly the network's nodes and states, each with the conditional probability obtained from the product of the fitted conditional tables, whatever the kinds of state labels, the numbers of states and the order in which parents and states are stored. "
  "Querying changes neither the network nor the observations nor later answers, and an engine is refused for an unfitted network or one whose node names are not alphanumeric.",
  ["inputs", "configurations"], "all table values, all networks and observations up to the stated size",
  "Tests query one or two fitted data sets whose parents have equal numbers of states.",
  INF + ["causalnex/network/network.py"], [("tables turned into factors by label", "inference.py:InferenceEngine._create_cpds_dict_bn"), ("factor functions with generated argument lists", "inference.py:_create_node_function"), ("labelled tables", "network.py:BayesianNetwork.cpds")],
  "Tables symbolic, observations forked; compared with brute force as rational functions.")

P("C11", "Interventions follow the truncated factorisation",
  "After intervening on nodes with a state or a distribution over states, every query returns the exact probabilities of the network in which each intervened node's table is replaced by the given distribution without parents and all other tables are unchanged: non-descendants keep their distribution, and descendants see the new value. "
  "This holds for every kind of state label and in combination with observations.",
  ["inputs", "configurations"], "all tables and distributions, all intervened nodes and states up to the stated size",
  "Tests check that the intervened node itself gets the requested probabilities.",
  INF, [("replacing the node's table", "inference.py:InferenceEngine.do_intervention, _do"), ("rebuilding the network", "inference.py:_generate_bbn")],
  "Tables and distributions symbolic; compared with the truncated factorisation by brute force.")

P("C12", "Intervening and resetting compose; the fitted network is never touched",
  "After any history of interventions, resets, queries and refused interventions, answers reflect exactly the interventions in force: the latest one per node, minus those that were reset, and resetting everything restores the original answers. "
  "The Bayesian network, other engines built from it and the caller's dictionaries are unaffected, and refitting the network does not change an existing engine.",
  ["histories", "inputs"], "all histories up to the stated length, all tables and distributions",
  "Tests reset one intervention once.",
  INF, [("pristine copy of the tables", "inference.py:InferenceEngine.reset_do")],
  "Histories forked, tables and distributions symbolic.")

P("C13", "Invalid interventions are refused and change nothing",
  "An intervention is accepted exactly when its probabilities lie between 0 and 1, sum to one up to rounding and cover exactly the node's states, the state is one of the node's states, and the node exists and currently has children; anything else raises the documented error. "
  "After a refused intervention all answers are the same as before it.",
  ["inputs", "histories"], "all weights in a range, listed wrong states and nodes, with and without earlier interventions",
  "Tests try one bad dictionary per rule and do not look at the engine afterwards.",
  INF, [("validation before any change", "inference.py:InferenceEngine._do, do_intervention")],
  "Weights symbolic; acceptance compared with the definition of a distribution.")

NET = ["causalnex/network/network.py"]

P("C20", "Bayesian networks are built from exactly the connected acyclic structures",
  "A Bayesian network is built from a structure exactly when it is acyclic and connected, with the same nodes, edges and attributes; every other structure raises the documented error and the structure cannot be replaced afterwards. "
  "The states of a node are exactly the declared values or those occurring in the data; missing nodes and missing values are rejected and leave earlier states in force.",
  ["configurations", "inputs"], "all structures up to the stated size, all data up to the stated number of rows",
  "Tests use a few cyclic and disconnected graphs.",
  NET, [("structure validation", "network.py:BayesianNetwork.__init__"), ("state validation", "network.py:BayesianNetwork.node_states")],
  "Structures forked, data symbolic; compared with reference cycle and component computations.")

P("C21", "Fitted tables are the documented estimates under the right labels",
  "For every data set, each entry of a fitted conditional table is the documented estimate for exactly the state and the parent states it is labelled with: relative frequency for maximum likelihood, or with the documented pseudo-counts for K2 and BDeu, whatever the order of columns and the kinds of labels, including declared states that do not occur. "
  "Refitting replaces all tables, the data are not modified, and unknown methods or priors raise the documented error and keep the earlier tables.",
  ["inputs", "configurations"], "all data sets up to the stated number of rows",
  "Tests fit two data sets with integer labels.",
  NET, [("labels to positions", "network.py:BayesianNetwork._state_to_index"), ("positions back to labels", "network.py:BayesianNetwork.cpds"), ("choice of estimator and prior", "network.py:BayesianNetwork.fit_cpds")],
  "Data cells symbolic integers, estimates compared as rational functions of the data; other label kinds by forking each cell; pgmpy estimators replaced by their definitions.")

P("C22", "Predictions follow the conditional distribution of each row",
  "For every row, the predicted probabilities are the exact conditional probabilities of the node's states given the row (from the node's own table when all parents are present, otherwise given all observed columns other than the node's own), in columns named by the states and under the row's own index; the predicted value is one of the node's states and most probable. "
  "Neither the data nor the network are modified.",
  ["inputs", "configurations"], "all tables, all rows and choices of columns up to the stated size",
  "Tests predict one small data set with integer states, with all parents or one missing.",
  NET, [("table lookup for complete rows", "network.py:_predict_from_complete_data, _predict_probability_from_complete_data"), ("inference for incomplete rows", "network.py:_predict_from_incomplete_data, _predict_probability_from_incomplete_data")],
  "Tables symbolic, rows forked; compared with brute-force conditionals; for incomplete rows the predicted value belongs to a most probable completion.")

P("C23", "Evaluation scores each state against its own occurrences",
  "The reported ROC curve and area are the micro-average over all rows and states in which the predicted probability of a state is paired with whether that row's true value is that state, and the classification report gives each state, under its own name, the precision, recall, F1 and support of the predictions for it. "
  "This holds for every kind of state label, including states that do not occur in the test data.",
  ["inputs", "configurations"], "all tables and test rows up to the stated size",
  "Tests use states 0 and 1, for which text order and numeric order coincide.",
  ["causalnex/evaluation/evaluation.py"], [("pairing of columns", "evaluation.py:roc_auc, _build_ground_truth"), ("labels and names", "evaluation.py:classification_report")],
  "Tables symbolic, rows forked; compared with a direct computation of the curve, the area and the per-state scores.")

NTF = ["causalnex/structure/notears.py"]
DYF = ["causalnex/structure/dynotears.py"]
GENF = ["causalnex/structure/data_generators/wrappers.py", "causalnex/structure/data_generators/core.py"]

P("C40", "NOTEARS learns a graph over all columns that honours tabus and the threshold",
  "Whatever point the optimiser returns, NOTEARS returns a structure whose nodes are exactly the columns and whose edges contain no tabu edge, no edge out of a tabu parent, no edge into a tabu child and no self-loop; every edge carries its learned weight, at least the threshold in absolute value, and no learned weight above the threshold is lost; every edge that no tabu names may be learned, with either sign. "
  "Edges learned from a frame have origin learned, the data and the lists are not modified, and unusable data (empty, missing or infinite values, non-numeric columns) raise the documented error.",
  ["inputs", "schedules"], "all optimiser results within the bounds handed over, all data, thresholds and tabu arguments up to the stated size",
  "Tests learn a few graphs from generated data, where forbidden edges are often not wanted anyway.",
  NTF, [("bounds from tabus", "notears.py:from_numpy, from_numpy_lasso"), ("renaming and thresholding", "notears.py:from_pandas, _learn_structure")],
  "The optimiser returns an arbitrary symbolic point inside the bounds it was given.")

P("C41", "DYNOTEARS learns a lagged graph that honours tabus, lags and the threshold",
  "Whatever point the optimiser returns, DYNOTEARS returns a structure over every variable at every lag, in which all edges end at lag 0, none is a self-loop or tabu (tabu edge at its lag, tabu parent, tabu child), and each carries the weight learned for that variable, lag and target, at least the threshold in absolute value; no learned weight above the threshold is lost; every edge that no tabu names may be learned, with either sign. "
  "Edges learned from frames have origin learned, the data are not modified, and inconsistent or unusable inputs raise the documented error.",
  ["inputs", "schedules"], "all optimiser results within the bounds handed over, all data, thresholds and tabu arguments up to the stated size",
  "Tests learn a few graphs from fixed data with one or two lags.",
  DYF, [("bounds from tabus", "dynotears.py:from_numpy_dynamic"), ("naming of lagged nodes", "dynotears.py:_matrices_to_structure_model"), ("weights from split variables", "dynotears.py:_reshape_wa")],
  "The optimiser returns an arbitrary symbolic point inside the bounds it was given.")

PTF = ["causalnex/structure/pytorch/notears.py", "causalnex/structure/pytorch/core.py", "causalnex/structure/pytorch/dist_type/categorical.py", "causalnex/structure/pytorch/dist_type/_base.py", "causalnex/structure/pytorch/dist_type/ordinal.py"]

P("C42", "PyTorch NOTEARS returns a graph over the (expanded) columns that honours tabus",
  "Whatever weights the optimiser returns, the PyTorch NOTEARS returns a structure over all columns (a categorical column as one node per category, named apart from all other columns) with no self-loop, no tabu edge, no edge out of a tabu parent or into a tabu child (for all nodes of an expanded column alike; every other edge may be learned), and exactly the edges whose strength exceeds the threshold, each with its learned strength, mean effect and origin learned; nodes carry their distribution type and bias. "
  "The collapsed graph sums the expanded nodes of a column; without hidden layers the learned model predicts each variable by bias plus mean effects of its parents, with hidden layers strength and mean effect are the averages over the data of the size and the value of the change of the prediction per unit of the parent, and a tabu parent never influences its variable; the data are not modified, and invalid arguments raise the documented error.",
  ["inputs", "schedules", "configurations"], "all optimiser results within the bounds handed over, thresholds, tabu arguments and column types up to the stated size",
  "Tests learn a few graphs from fixed data with one expanded column at most, where forbidden edges are often not wanted anyway.",
  PTF, [("bounds from tabus", "pytorch/notears.py:from_numpy"), ("expanded columns", "dist_type/categorical.py:preprocess_X, collapse_adj; dist_type/_base.py:preprocess_tabu_edges, preprocess_tabu_nodes, make_node_name"), ("structure from weights", "pytorch/core.py:_calculate_adj; pytorch/notears.py:from_numpy")],
  "The optimiser returns an arbitrary symbolic point inside the bounds it was given; torch replaced by a model with operation-wise derivatives.")

P("C44", "PyTorch NOTEARS optimises the documented likelihood with its exact gradient",
  "For all weights, data and regularisation, the objective that the PyTorch NOTEARS minimises equals, at an acyclic graph, the average negative log-likelihood of each column under its documented distribution (Gaussian, Bernoulli-logit, Poisson-log, categorical-softmax, cumulative-logit) given the weighted sum of its parents, plus the documented L1 and L2 terms, and exceeds it by a positive penalty exactly when the graph between the original columns (categories collapsed) has a cycle. "
  "The gradient supplied with it, with or without hidden layers, in the first step and after multiplier updates, is its exact derivative in every free weight and is finite.",
  ["inputs", "configurations"], "all weights, continuous data and penalties at the stated sizes and column types",
  "Tests look only at edges found after convergence on generated data.",
  PTF, [("objective and gradient", "pytorch/core.py:_dual_ascent_step, _h_func, _l1_reg, _l2_reg"), ("likelihoods", "dist_type/*.py:loss"), ("cycles between expanded columns", "dist_type/categorical.py:modify_h")],
  "Objective and gradient evaluated on symbolic weights and data; exp, log, sigmoid as uninterpreted functions with known derivative; constants up to relative 1e-9.")

P("C70", "DAGRegressor and DAGClassifier predict and report what the learned graph says",
  "For all fitted weights, inputs and labels, the prediction (or class probability) for a row is the documented link of the target node's bias plus the effects of its parents on the row's preprocessed values, in the original units and labels of the target, and the predicted class is a most probable one. "
  "Coefficients, importances and intercept are those of the edges into the target in the order of the features, and the constraints asked for (dependent target, tabu, threshold, acyclicity) hold in the graph. "
  "Fitting learns from each row's own target whatever the container or index, passes every option on, leaves all arguments unmodified and rejects invalid ones with the documented errors.",
  ["inputs", "configurations"], "all weights and continuous inputs for the listed feature types, targets, containers and labels",
  "Tests fit a few generated data sets and compare scores; misaligned rows, units, class order or coefficients go unnoticed.",
  ["causalnex/structure/pytorch/sklearn/_base.py", "causalnex/structure/pytorch/sklearn/clf.py", "causalnex/structure/pytorch/sklearn/reg.py", "causalnex/structure/pytorch/core.py", "causalnex/structure/pytorch/dist_type/*.py"],
  [("fit and predict", "_base.py:DAGBase"), ("classes and probabilities", "clf.py:DAGClassifier"), ("link functions", "dist_type/*.py:inverse_link_function, get_columns")],
  "The optimiser's result is arbitrary within its bounds (nonzero weights with discrete targets); linear models; models of pandas, scikit-learn and PyTorch.")

P("C43", "NOTEARS and DYNOTEARS optimise their documented score with its exact gradient",
  "For all data, regularisation and weights, the objective that NOTEARS and DYNOTEARS minimise equals, at an acyclic graph, the least-squares score of that graph (half the squared residuals over the number of rows, each row predicted from its own parents and its own lagged parents) plus the documented L1 terms, and it adds a positive penalty exactly when the weights within one time step form a cycle. "
  "The gradient supplied with it, in the first step and after multiplier updates, is its exact derivative in every weight.",
  ["inputs"], "all real data and weights up to the stated sizes",
  "Tests look only at which edges are found after convergence; a wrong gradient or misplaced lag degrades results without failing them.",
  NTF + DYF, [("objective and gradient", "notears.py:_learn_structure, _learn_structure_lasso"), ("objective and gradient with lags", "dynotears.py:_learn_dynamic_structure")],
  "Objective and gradient evaluated on symbolic data and weights; matrix exponential as formal function with known derivative, or its cut power series.")

P("C45", "A learned structure is acyclic unless a convergence warning is given",
  "Whatever the optimiser returns at each step, if NOTEARS, DYNOTEARS or the PyTorch NOTEARS finish without a convergence warning then the acyclicity measure of the weights that were learned is within the tolerance (1e-8 by default); with tolerance zero the learned graph (its part within one time step) is acyclic. "
  "When the last weights exceed the tolerance the user is warned.",
  ["schedules", "inputs"], "all optimiser results over up to the stated number of steps, all tolerances",
  "Tests use data on which the optimiser converges at once.",
  NTF + DYF + ["causalnex/structure/pytorch/core.py"], [("stopping rule and warning", "notears.py:_learn_structure, dynotears.py:_learn_dynamic_structure, pytorch/core.py:fit")],
  "Optimiser results symbolic over several multiplier updates.")

P("C60", "Random structures are acyclic and within the requested weights and degree",
  "For every outcome of the random generator, a generated structure has the requested number of nodes, is acyclic, and gives each edge a weight whose absolute value lies between the requested bounds; full graphs and maximal degree give all pairs, degree zero gives none, Barabasi-Albert graphs are connected. "
  "Dynamic structures have every variable at every requested lag, edges only into lag 0, and lagged weights within their own bounds divided by the decay for each further lag; impossible arguments raise the documented error.",
  ["inputs", "configurations"], "all random draws and permutations up to the stated size, all weight bounds",
  "Tests fix a seed.",
  GENF, [("triangular graph under a permutation", "core.py:generate_structure"), ("lagged part and decay", "wrappers.py:generate_structure_dynamic, _generate_inter_structure")],
  "Random draws are symbolic values in their support, permutations forked.")

P("C62", "Generated dynamic data follow the labelled lagged graph row by row",
  "Every row of generated dynamic data gives each variable the weighted sum of its parents' values in that row (lagged parents being the lagged columns) plus a draw of its own from the requested noise distribution with the requested scale, and each lagged column holds that variable's value exactly that many rows earlier. "
  "This holds for every weighted graph, every order in which its nodes are listed, every burn-in and every outcome of the generator; an unknown noise type raises the documented error.",
  ["inputs", "configurations"], "all weights, scales and noise values, listed graphs and node orders, lags up to the stated number",
  "Tests recover a structure statistically from large samples with at most a few lags.",
  ["causalnex/structure/data_generators/wrappers.py"], [("simulation over lags", "wrappers.py:generate_dataframe_dynamic"), ("labels of columns", "wrappers.py:_gen_stationary_dyn_net_and_df, generate_dataframe_dynamic")],
  "Weights and noise symbolic; each row compared with the structural equations.")

P("C61", "Linear generated data satisfy the structural equations row by row",
  "In every row of linear generated data a continuous variable is the weighted sum of its parents' columns (the graph's weights, or drawn ones) plus a constant intercept plus its own draw of the requested noise, scaled by noise_std (by 1 for root nodes); binary variables are 0/1 cut-offs of such a latent value, categorical ones the one-hot of the largest, and counts the zero-inflated Poisson quantile with the latent value (its exponential if negative) as rate. "
  "Columns are the graph's variables (arrays in the graph's node order), the same seed gives the same data, the arguments are not modified, and cyclic graphs, unknown types and unknown distributions raise the documented error.",
  ["inputs", "configurations"], "all draws, weights and noise scales; listed graphs and types up to the stated size",
  "Tests compare correlations or fitted scores on large samples with loose thresholds.",
  GENF, [("structural equations", "core.py:sem_generator"), ("weights and intercepts", "core.py:_create_weight_matrix"), ("latent variables", "core.py:_sample_binary_from_latent, _sample_count_from_latent, _sample_categories_from_latent")],
  "Draws and weights symbolic; each row compared with the equations (which draw is meant is existential).")

P("C63", "Non-linear generated data apply a Gaussian process of each node's parents",
  "In every row of non-linear generated data a continuous variable is a draw of a Gaussian process with the given kernel, evaluated at that row's parent values and scaled to unit variance over the sample, plus its own noise as in the linear case (root nodes: noise of scale 1 only); binary, categorical and count variables use such a value as latent variable, with one process per category. "
  "This includes samples long enough to be drawn in several sorted batches: each batch is drawn from the process given the batch before it, and its values stay with their own rows. The same seed gives the same data.",
  ["inputs", "configurations"], "all draws and noise scales; listed graphs and types up to the stated size",
  "Tests check shapes, distribution names and loose statistics.",
  GENF, [("process over parents", "core.py:nonlinear_sem_generator, _gp_index"), ("batches", "core.py:_gp_index, _conditional_sample")],
  "Draws symbolic, kernel replaced by a recorder; each row compared with the equations.")
