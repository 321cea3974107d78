MC = "model_checking"

prop("P01", "Max-product inference is exact on every forest",
     "On any graph without cycles (including graphs with no edges, isolated nodes, chains in any node or edge order or orientation, and tied scores), max-product inference returns one valid state per node whose total score is the maximum over all labelings. The result does not depend on how the potentials are stored (dtype, memory layout, one shared or one matrix per edge), and the caller's arrays are not modified.",
     ["inputs"], "all forests, orientations, edge orders, state counts and finite potentials",
     "tests use a handful of random chains and trees with generic weights; ties, empty edge sets, reversed or scrambled edges and isolated nodes are never combined",
     INF, [("chain/forest detection", "maxprod.py: is_chain, graph_functions.py: is_forest"),
           ("two-pass dynamic programming", "maxprod.py: tree_max_product, _viterbi.pyx")],
     ["inference_dispatch(..., 'max-product')"],
     "bounded exhaustive enumeration of graphs and potentials on the real code against brute force", MC,
     "Complete for the stated graph sizes and potential alphabets; larger shapes only for listed families. Says nothing about graphs with cycles or non-finite potentials.")

prop("P04", "Every model predicts a maximiser of its linear score",
     "For every model, instance and weight vector on which the chosen inference method is exact (forests, or branch and bound), the predicted labeling is a valid one and maximises the inner product of the weights with the documented joint feature vector over all labelings.",
     ["inputs", "configurations"], "all models, state and feature counts, instances and weight vectors",
     "tests compare a few random grids and chains with brute force; the dispatch on model, graph shape, edge direction and state count is never covered jointly",
     MOD + LAT + TYP, [("potentials from weights", "_get_unary_potentials/_get_pairwise_potentials"),
                       ("inference dispatch", "inference_methods.py")],
     ["model.inference"], "bounded exhaustive enumeration of (model, instance, sparse weights) against brute force over labelings", MC,
     "Complete for the listed configurations and weight alphabet; joint features are defined independently of the code.")

prop("P05", "Loss-augmented inference maximises score plus loss",
     "For every model, instance, ground truth and weight vector on which the chosen inference method is exact, loss-augmented inference returns a valid labeling maximising linear score plus the model's (class-weighted) loss relative to the ground truth. For models with latent variables the loss counts only the visible labels; with rescaled C both score and loss are weighted by the true class.",
     ["inputs", "configurations"], "all models, instances, ground truths, weights and class weights",
     "tests check single random weight vectors on a few models; ground truths and weights that tie or nearly tie, class weights and latent models are sampled once or never",
     MOD + LAT + TYP, [("loss augmentation", "src/utils.pyx: loss_augment_unaries; loss_augmented_inference of each model")],
     ["model.loss_augmented_inference"], "bounded exhaustive enumeration against brute force over labelings", MC,
     "Complete for the listed configurations, ground truths and weight alphabet.")

prop("P06", "Joint features equal their documented layout",
     "For every model, instance and discrete labeling, the joint feature vector has the advertised size and equals, entry by entry, the documented accumulation of node features per state and of edge (feature) counts per state pair: symmetric pairs listed once for undirected models, one block per edge feature or direction, (anti-)symmetrised where requested, one block per type pair for typed models. It does not depend on dtype or memory layout of the instance.",
     ["inputs", "configurations"], "all models, instances and labelings",
     "tests check sizes, sums and a few hand-made grids; transposed blocks, swapped directions or off-by-one slices cancel in those sums",
     MOD + LAT + TYP, [("accumulation", "joint_feature of each model; src/utils.pyx: crammer_singer_joint_feature"),
                       ("grid edges", "pystruct/utils/graph.py")],
     ["model.joint_feature", "model.size_joint_feature"],
     "exhaustive enumeration of labelings of small instances against an independent definition", MC,
     "Complete over labelings of the listed instances; larger shapes on a covering set.")

prop("P02", "LP-relaxed inference is optimal, feasible and exact on forests",
     "LP inference with relaxed output returns node and edge marginals that are non-negative, normalised and mutually consistent, whose linear score is the optimum of the local-polytope relaxation and equals minus the reported energy, never below the best labeling. On forests, and whenever the solution is integral, the returned labeling is a maximiser over all labelings; rounded output is the per-node most probable state.",
     ["inputs"], "all graphs, orientations, state counts and finite potentials",
     "tests look at a few random chains and one loopy grid; parallel edges, single nodes, graphs without edges and shared pairwise matrices are not combined",
     INF, [("local-polytope program", "linear_programming.py: lp_general_graph"), ("output conversion", "inference_methods.py: inference_lp")],
     ["inference_dispatch(..., 'lp')"],
     "bounded exhaustive enumeration of graphs and potentials against an independent LP and brute force", MC,
     "Complete for the stated graphs and potential alphabets; interior-point accuracy 1e-4.")

prop("P03", "AD3 inference is exact with branch and bound and on forests",
     "Dual-decomposition inference (plain and extended variant) returns valid labels whose score is the maximum over all labelings when branch and bound is requested, or when the graph is a forest, for every graph and potential whose best labeling is unique. Reported energies are minus the score of what is returned, and relaxed outputs are normalised marginals consistent with it. With inference_exception (an argument of inference_ad3 and inference_ad3plus, a setting of multi-type models) a relaxed solution that is not integral raises InferenceException instead of being returned, and integral ones are returned as usual.",
     ["inputs", "configurations"], "all graphs, potentials and solver options",
     "tests use a few random instances per option and never vary the direction of edges, the storage of potentials and the options together",
     INF[:1] + INF[2:4], [("wrappers of the AD3 library", "inference_methods.py: inference_ad3, inference_ad3plus")],
     ["inference_dispatch(..., 'ad3' / 'ad3+')"],
     "bounded exhaustive enumeration of graphs and potentials against brute force", MC,
     "The AD3 library is outside the repository; unique maximisers only.")

prop("P07", "Reported energies match the reported labels; bad methods are rejected",
     "Whenever inference is asked for an energy, it returns the labels together with exactly minus their (loss-augmented) score, for every inference method, model and graph; compute_energy evaluates a given labeling to the sum of its unary and pairwise potentials. Inference without pairwise terms picks the best state of each node, and an unknown inference method raises ValueError.",
     ["inputs", "configurations"], "all methods, models, graphs, potentials and labelings",
     "tests check energies for one method on one model; methods that ignore the request or report the energy of something else pass",
     INF + MOD + LAT + TYP, [("dispatch", "inference_methods.py: inference_dispatch"), ("energy of a labeling", "inference/common.py: compute_energy")],
     ["inference_dispatch(return_energy=True)", "model.inference(return_energy=True)", "compute_energy"],
     "bounded exhaustive enumeration with independent scoring", MC, "MultiClassClf reports the score instead of its negative (its tests say so) and is held to that.")

prop("P08", "Joint features and losses extend linearly to relaxed solutions",
     "For every model, the joint feature vector and the loss of the one-hot marginals of a labeling equal those of the labeling itself, and both are linear in the marginals. The energy reported by relaxed inference, with or without loss augmentation, is minus the linear score (plus loss) of the returned marginals.",
     ["inputs", "configurations"], "all models, labelings and mixtures of labelings, all weights",
     "tests compare one-hot encodings for one or two models and random labelings; grid, multi-label and typed models with integer features are not covered",
     MOD + LAT + TYP, [("relaxed joint features", "joint_feature of each model"), ("relaxed loss", "crf.py, graph_crf.py: continuous_loss")],
     ["model.joint_feature", "model.continuous_loss", "model.loss"],
     "exhaustive enumeration of labelings and pairs of labelings, plus every real relaxed result on loopy graphs", MC,
     "Solver accuracy 2e-3 relative for energies of fractional results.")

prop("P09", "Task losses are class-weighted Hamming distances",
     "For every model and pair of labelings, the loss is the sum over nodes with different (visible) labels of the weight of the true class; it is non-negative, zero exactly for equal visible labels, and at most the reported maximum loss. Loss does not depend on the integer type of the labels.",
     ["inputs", "configurations"], "all models and pairs of labelings",
     "tests evaluate a few labelings; class weights with hidden nodes, mixed label types and edge cases are not combined",
     MOD + LAT + TYP, [("losses", "loss, max_loss, base_loss of each model")], ["model.loss", "model.batch_loss", "model.max_loss"],
     "exhaustive enumeration of label pairs of small instances", MC, "Complete over label pairs of the listed instances.")

prop("P10", "Batch operations equal the per-instance operations in order",
     "Batched inference, loss-augmented inference, latent completion, joint features and losses return for the k-th item exactly what the corresponding single-instance operation returns for it (for joint features: the sum over items), for every batch including empty ones, single items, repeated items and items of different size.",
     ["inputs", "histories"], "all batches of instances", "tests compare a batch with single calls for one model; vectorised overrides are only exercised by learners",
     MOD + LAT + TYP, [("vectorised overrides", "unstructured_svm.py, base.py")], ["model.batch_*"],
     "exhaustive enumeration of short item sequences", MC, "Complete for the stated sequence lengths and instances.")

prop("P11", "Model operations do not depend on history or modify arguments",
     "Every model operation (inference, loss augmentation, joint features, losses, latent completion, batches) returns the same result whatever operations were performed on the model before, also on a pickled or cloned model, leaves the caller's arrays unchanged and does not return views of them.",
     ["histories", "inputs"], "all sequences of operations on one model", "tests call one operation per model; caches or in-place edits only show in particular sequences",
     MOD + LAT + TYP + INF[:1], [("in-place loss augmentation", "src/utils.pyx"), ("shared state", "model attributes")],
     ["all public model operations"], "exhaustive exploration of operation sequences up to a depth", MC, "Complete for sequences of length 3 (thorough: 4) over the listed alphabet.")

prop("P12", "Sizes inferred from data equal explicit sizes; mismatches are rejected",
     "A model whose state and feature counts are left to be inferred behaves, after seeing the data, exactly like one given the true counts explicitly; counts given explicitly that disagree with the data raise ValueError instead of producing a model.",
     ["configurations", "inputs"], "all subsets of explicitly given dimensions and all data sets", "tests try one or two combinations per model",
     MOD + LAT + TYP, [("initialisation", "initialize of each model")], ["model.initialize", "learner.fit"],
     "exhaustive enumeration of given/inferred dimension subsets and single mismatches", MC, "Training labels contain every state.")

prop("P13", "Latent completion is consistent with the labels and optimal",
     "For latent-variable models, completing given labels returns hidden states that are consistent with the labels and maximise the linear score among all consistent ones, for every weight vector; initial hidden states are consistent with the labels and in range; projecting the completion to labels gives back the labels.",
     ["inputs", "configurations"], "all latent models, instances, labels and weights", "tests complete a few random grids with small weights",
     LAT, [("completion", "latent, label_from_latent, init_latent")], ["model.latent", "model.init_latent"],
     "bounded exhaustive enumeration against brute force over consistent hidden states", MC, "Complete for the listed instances and weights.")

prop("P14", "Multi-type models generalise the single-type model",
     "A multi-type model with one node type has the same joint features, losses, energies and predictions as the edge-feature model; permuting the types (and all per-type data) permutes the results; types without nodes or edges contribute nothing; splitting and joining per-type labels are inverse operations.",
     ["inputs", "configurations"], "all instances, type permutations and weights", "tests use hand-made numeric examples for one or two type layouts",
     TYP + MOD[4:5], [("per-type blocks", "typed_crf.py, node_type_edge_feature_graph_crf.py")], ["NodeTypeEdgeFeatureGraphCRF operations"],
     "bounded exhaustive enumeration with equivalent-model comparison", MC, "Complete for the listed instances.")

prop("P15", "Hard logic constraints are respected and otherwise optimal",
     "Inference under hard logic constraints returns a labeling that satisfies every constraint of its own instance and maximises the linear score among all labelings that do, in single, batched and (parallel) learner prediction; an empty constraint list changes nothing.",
     ["inputs", "configurations"], "all operators, node selections, states, negations, potentials and weights", "tests check a few constraints on one grid and one typed graph",
     INF[:1] + ["pystruct/models/base.py", "pystruct/models/crf.py", "pystruct/learners/ssvm.py"] + TYP,
     [("constraints hand-over", "inference_methods.py: inference_ad3plus; crf.py: inference; base.py: batch_inference; ssvm.py: predict")],
     ["model.inference(constraints=)", "learner.predict(constraints=)"],
     "bounded exhaustive enumeration of constraints against truth tables and brute force", MC,
     "Unique best constrained labelings; ad3 ignores a trailing term of node type 0 (library).")


prop("P16", "Cutting-plane training reaches the optimum of its objective",
     "When NSlackSSVM or OneSlackSSVM stop on their own (no iteration limit) with exact inference and a small tolerance, the learned weights minimise the regularised structured hinge loss (C times the sum over samples of the largest margin violation, plus half the squared norm), for every training set and every setting of the options that are meant to affect speed only: batch size, constraint checks, pruning window and threshold, inference cache, loss reporting. The cache takes two solutions for the same one only if all their parts agree.",
     ["inputs", "configurations"], "all training sets, models, C and speed options",
     "tests compare training accuracy on easy data or one dual value; a wrong constraint, lost constraint or early stop still gives high accuracy",
     CP + MOD, [("working set and quadratic program", "n_slack_ssvm.py, one_slack_ssvm.py: fit, _solve_*_qp, prune_constraints"),
          ("inference cache", "one_slack_ssvm.py: _update_cache, _constraint_from_cache"), ("most violated labelings", "utils/inference.py: find_constraint")],
     ["learner.fit", "learner.w"], "exhaustive enumeration of small training problems and options on the real learners against an independent primal QP", MC,
     "Complete for the listed problem tables; quadratic programs are accurate to about 1e-4 relative.")

prop("P17", "Frank-Wolfe training converges and certifies the optimum",
     "For every training set, sampling order and option (batch or block-coordinate, line search or fixed steps, averaging, permuted, sequential or random sampling), every dual value FrankWolfeSSVM records is at most, and every primal value at least, the optimum of the regularised structured hinge loss; with line search the dual never decreases, given enough iterations the weights reach the optimum, and the weights after any number of passes are those of the documented algorithm (averaged ones: the running average that weights the k-th iterate proportionally to k). It stops on its own only when the duality gap is below the tolerance.",
     ["schedules", "inputs", "configurations"], "all training sets, sampling orders and options",
     "tests fit two data sets with a fixed seed and look at accuracy; sampling orders and certificates are never checked",
     FW + MOD[-4:], [("block updates", "frankwolfe_ssvm.py: _frank_wolfe_bc, _frank_wolfe_batch"), ("duality gap", "frankwolfe_ssvm.py: _calc_dual_gap")],
     ["learner.fit", "learner.primal_objective_curve_", "learner.objective_curve_", "learner.w"],
     "exhaustive enumeration of training problems and sampling schedules on the real learner under a scripted random source", MC,
     "Complete for the listed problems and the schedules of the first two passes.")

prop("P18", "Recorded training curves describe the training honestly",
     "For every learner, training set, option and iteration limit, the objective curves recorded during fit are consistent with the data: cutting-plane (dual) values never exceed and primal values never fall below the optimum of the training objective (NSlackSSVM's intermediate primal entries, which add up what a pass met while the weights changed, are either that or exactly C times the sum of the violations met plus half the squared norm of the weights), cutting-plane dual values do not decrease without pruning, the last primal entry is the objective of the weights at that time, curves have one entry per recorded iteration, and recorded losses are the training losses of the weights at that iteration.",
     ["inputs", "configurations", "histories"], "all training sets, learners, options and iteration limits",
     "tests compare curve lengths or final values in single runs",
     ALL, [("curves", "fit of each learner; ssvm.py: _objective, _compute_training_loss")],
     ["objective_curve_", "primal_objective_curve_", "loss_curve_", "timestamps_"],
     "exhaustive enumeration of training problems, options and iteration limits with recomputation from full tables", MC,
     "Complete for the listed problems; solver accuracy about 1e-4 relative.")

prop("P19", "Sign constraints on weights hold throughout training",
     "With negativity_constraint, the listed weights of NSlackSSVM and OneSlackSSVM are never positive (up to solver accuracy), after every iteration and for every option; all other weights are free, and when training stops on its own the weights are the best ones with these signs.",
     ["inputs", "configurations"], "all training sets, subsets of constrained weights, options and iteration limits",
     "tests train three models with constraints and look at predictions", CP,
     [("constrained quadratic program", "n_slack_ssvm.py: _solve_n_slack_qp; one_slack_ssvm.py: _solve_1_slack_qp")],
     ["learner.w"], "exhaustive enumeration of training problems and constraint subsets against an independent primal QP", MC,
     "The optimality part is a known finding (dual without multipliers for the sign constraints): runs that end exactly where that program ends are reported as known.")


prop("P20", "Subgradient training follows its documented update rule",
     "SubgradientSSVM's weights after every pass are the ones given by the documented rule: a step against the subgradient of the regularised structured hinge loss for each (mini-)batch, with the stated learning-rate decay, momentum, and linear or squared weighted averages of all iterates, for every setting of its options, every sample order, and with or without parallel workers; it stops on its own only when a whole pass has no violated constraint.",
     ["inputs", "configurations", "schedules"], "all training sets, option combinations, batch sizes and sample orders",
     "tests train once per option and compare the accuracy, which a wrong step size, average or batch boundary does not change",
     SG + ["pystruct/utils/inference.py"], [("updates and averages", "subgradient_ssvm.py: _solve_subgradient, _sequential_learning, _parallel_learning")],
     ["learner.w", "learner.fit"], "exhaustive enumeration of training problems, options and sample orders against an executable model of the rule, every model trace compared with the real run", MC,
     "Complete for the listed problems; runs with an exact tie are skipped.")

prop("P21", "Perceptron training follows its documented update and averaging rule",
     "StructuredPerceptron's final weights and loss curve are the ones given by the documented rule: every wrong prediction adds the difference of joint features scaled by the decayed rate, online or once per pass in batch mode; averaging gives the mean of all iterates of the documented window (all passes, those after a given number, or the last one; nothing if training stops before); it stops when all training labels are predicted exactly.",
     ["inputs", "configurations"], "all training sets, averaging windows, decay settings and pass limits",
     "tests train single problems with averaging True or False and compare accuracies",
     ["pystruct/learners/structured_perceptron.py", "pystruct/learners/ssvm.py"],
     [("updates and averages", "structured_perceptron.py: fit")], ["learner.w", "learner.loss_curve_"],
     "exhaustive enumeration of training problems and options against an executable model of the rule, every model trace compared with the real run", MC,
     "Complete for the listed problems.")

prop("P22", "Found constraints and training objectives agree with their definitions",
     "For every model, instance, labels and weights, find_constraint returns a labeling maximising loss plus score, its loss, the difference of joint features and the matching slack; find_constraint_latent does so relative to the best completion; the primal objective of every learner is half the squared norm plus C times the sum of these slacks, independent of the number of workers.",
     ["inputs", "configurations"], "all models, instances, labelings, weights and worker counts",
     "these are used by the learners only indirectly; tests call find_constraint in a handful of cases",
     ["pystruct/utils/inference.py", "pystruct/learners/ssvm.py"] + MOD + LAT + TYP,
     [("constraint", "utils/inference.py: find_constraint, find_constraint_latent"), ("objective", "ssvm.py: _objective; subgradient_latent_ssvm.py: _objective")],
     ["find_constraint", "learner._objective"], "bounded exhaustive enumeration against tables of all labelings", MC,
     "Complete for the listed instances and weights.")

prop("P23", "Latent-variable training follows its alternating scheme",
     "LatentSSVM alternates between completing the labels with the best hidden states under the current weights and training its base learner on the completed labels, until the completions repeat or the iteration limit is reached; its final weights, number of iterations and completions are those of this scheme. SubgradientLatentSSVM performs the documented subgradient step on the latent hinge loss for every sample. Predictions are labels, scores compare labels with labels, and the latent objective does not increase between rounds.",
     ["inputs", "configurations", "histories"], "all training sets, initial hidden states, base learners and options",
     "tests train one or two data sets and look at the training score, which is the same for many wrong schemes",
     LAT + ["pystruct/learners/latent_structured_svm.py", "pystruct/learners/subgradient_latent_ssvm.py"],
     [("alternation", "latent_structured_svm.py: fit, predict, score"), ("latent subgradient", "subgradient_latent_ssvm.py: fit, _objective, score")],
     ["learner.fit", "learner.predict", "learner.score", "learner.w"],
     "exhaustive enumeration of training problems and options against an executable model of the scheme, every model trace compared with the real run", MC,
     "Complete for the listed problems.")

prop("P24", "An interrupted fit leaves a usable, consistent learner",
     "If training is interrupted (Ctrl-C) at any point, the learner keeps valid weights, the final objective it records is the one of these weights, dual values stay below the optimum, curves of one fit have matching lengths, the final state is logged; prediction and scoring work, continuing with the kept constraints reaches the optimum and training again gives the same result as a new learner.",
     ["faults", "histories", "inputs"], "all interrupt points of all runs, learners and options",
     "no test interrupts training",
     ALL, [("handling of KeyboardInterrupt", "fit of each learner")],
     ["learner.fit", "learner.w", "learner.objective_curve_", "learner.predict"],
     "exhaustive fault injection: an interrupt at every call and at every executed line of the real training code", "fault_enumeration",
     "Complete for the listed problems at call level; at line level for a stated subset of lines per problem in the quick tier.")

prop("P25", "Training does not depend on earlier use of the learner",
     "Fitting a learner gives the same weights, curves, number of time stamps, predictions and scores as fitting a new learner with the same parameters and a new model, whatever was done with this learner or its model before: fits on other data or with other C or iteration limits, interrupted or failed fits, predictions, scores, or training another learner with the same model. (SubgradientLatentSSVM starts from the weights it has, if any.)",
     ["histories", "inputs", "configurations"], "all sequences of earlier operations, learners, options and data sets",
     "tests fit each learner once; state that survives a fit shows only in the second",
     ALL, [("state reset at the start of fit", "fit of each learner; ssvm.py: _reset_loss_curve")],
     ["learner.fit", "learner.w", "learner.objective_curve_", "learner.loss_curve_", "learner.predict"],
     "exhaustive enumeration of operation sequences on the real learners against new learners", MC,
     "Complete for the listed alphabet and depths; real models use every sixth sequence in the quick tier.")

prop("P26", "Continuing training ends where training ends",
     "Training that is stopped after some iterations and continued (OneSlackSSVM with warm_start, NSlackSSVM with given constraints, possibly with another C) ends with the optimal weights, for any given set of valid constraints; recorded curves are extended, never lost, and time stamps increase. A SubgradientSSVM (without momentum and averaging) continued with warm_start goes through the same weights as one uninterrupted fit.",
     ["histories", "inputs", "configurations"], "all training sets, stopping points, given constraints and values of C",
     "tests use warm starts only inside latent training and look at accuracies",
     CP + SG + LAT[:0] + ["pystruct/learners/subgradient_latent_ssvm.py"],
     [("kept constraints and dual variables", "one_slack_ssvm.py: fit; n_slack_ssvm.py: fit"), ("kept step counter", "subgradient_ssvm.py: fit")],
     ["learner.fit", "learner.w", "learner.objective_curve_", "learner.timestamps_"],
     "exhaustive enumeration of stop and continue histories and of given constraint sets on the real learners against an independent primal QP", MC,
     "Complete for the listed problems in the thorough tier; a stated fraction of (problem, history) pairs in the quick tier.")

prop("P27", "Backups of learners are complete, faithful and survive crashes",
     "SaveLogger writes the learner at every iteration that is a multiple of save_every and at the end (one file per iteration if the name contains %d); loading a backup gives a learner with the same state, predictions and scores, without the inference cache; saving never changes the learner or the training. If the process ends or a file operation fails at any point of a save, the previous backup can still be loaded.",
     ["crash points", "faults", "histories"], "all crash points, torn writes and file errors of all sequences of saves",
     "tests save and load once without any failure",
     ["pystruct/utils/logging.py"] + ALL[:4], [("saving", "utils/logging.py: SaveLogger.__call__, save, load")],
     ["SaveLogger", "SaveLogger.load", "learner.fit"],
     "exhaustive fault injection: the real code runs with all its file operations interposed; the process ends, tears the write or fails at each of them", "fault_enumeration",
     "Complete for operations of the listed save sequences; positions of torn writes are strided.")

prop("P28", "Results do not depend on the schedule of parallel workers",
     "With n_jobs > 1 every learner gives the same weights, curves, predictions, scores and objectives for every order and interleaving in which workers process the samples, on copies of the model (processes) or on one shared model (threads), and the same as with one worker, except that subgradient learners update once per group of workers. Operations running concurrently on one model do not influence each other.",
     ["schedules", "interleavings", "inputs"], "all schedules of all parallel calls and of concurrent operations on one model",
     "tests run n_jobs > 1 rarely, on whatever schedule happens",
     ["pystruct/utils/inference.py"] + ALL + MOD, [("parallel constraint generation and prediction", "Parallel(...) calls in learners and utils/inference.py"),
      ("operations without shared scratch state", "models: inference, loss_augmented_inference, joint_feature")],
     ["learner.fit", "learner.predict", "learner.score", "model.inference"],
     "stateless exploration of the real code under a deterministic line-level thread scheduler and joblib backend: all orders, bounded preemptions", MC,
     "At most two preemptions per schedule; extension modules are atomic.")

prop("P29", "Learners predict a maximiser per instance, in order, and score by loss",
     "For every learner, model, weight vector and list of instances (also empty, with repeated instances or instances of different size), predict returns one labeling per instance in the order of the instances, each maximising the score of its own instance; latent learners return the visible labels of the best hidden states, and predict_latent these states. Score is one minus the total (class-weighted) loss of the predictions over the total maximum loss. This holds for every number of workers, and neither changes the learner, the model or the data.",
     ["inputs", "configurations", "schedules"], "all learners, models, weights, lists of instances and numbers of workers",
     "tests compare accuracies of trained learners with thresholds; the order of parallel results, class-weighted scores and latent scores are not checked",
     ["pystruct/learners/ssvm.py", "pystruct/utils/inference.py", "pystruct/learners/latent_structured_svm.py", "pystruct/learners/subgradient_latent_ssvm.py"] + MOD + LAT + TYP,
     [("prediction and scoring", "ssvm.py: predict, score"), ("latent prediction", "latent_structured_svm.py, subgradient_latent_ssvm.py: predict, predict_latent, score")],
     ["learner.predict", "learner.predict_latent", "learner.score"],
     "bounded exhaustive enumeration of learners, models, weights and instance lists against brute force over labelings, parallel calls in all orders", MC,
     "Complete for the listed configurations, lists and weights; the weights are assigned, not learned.")

prop("P30", "Learners are well-behaved estimators",
     "For every learner and every combination of parameters: get_params returns what the constructor got, and training, predicting, cloning, pickling and copying leave the parameters as they are; a learner that was cloned, rebuilt from its parameters, pickled or copied, or got its parameters by set_params, trains to the same weights, curves, predictions and scores as one constructed with these parameters; cloning gives an unfitted learner and leaves the original unchanged, pickling and copying keep the fitted state. Cross validation and grid search therefore give the scores of fitting and scoring by hand.",
     ["configurations", "histories", "inputs"], "all learners, parameter combinations and sequences of copying operations",
     "tests never clone, copy or select parameters; user code does all three",
     ALL, [("parameters", "__init__ of each learner"), ("parameters during training", "fit of each learner")],
     ["learner.get_params", "learner.set_params", "sklearn.base.clone", "pickle", "GridSearchCV"],
     "exhaustive enumeration of parameter pairs and operation sequences on the real learners, compared with new ones", MC,
     "Complete for single and paired parameter values and sequences of up to 2 (thorough: 3) operations; switch_to changes the model by design and is excluded.")

prop("P31", "Graph, grid and inference helpers mean what they say",
     "make_grid_edges lists every pair of neighbouring cells exactly once, grouped by direction on request, and rejects neighborhoods other than 4 and 8; edge_list_to_features indicates the group of each edge; is_forest decides whether an edge list has no cycle (parallel edges are one); compress_sym and expand_sym are inverse and pair entries add up; unwrap_pairwise returns plain labels; exhaustive inference, with and without loss, returns a best labeling; objective_primal is the regularised hinge loss; the compiled kernels for joint features and loss augmentation add exactly the documented terms for every integer type.",
     ["inputs"], "all grid shapes, edge lists, graphs, matrices, labelings and weights",
     "tests use one or two shapes; tiny grids, empty groups, repeated edges and integer types are left out",
     ["pystruct/utils/graph.py", "pystruct/utils/graph_functions.py", "pystruct/utils/inference.py", "src/utils.pyx"],
     [("grid edges", "utils/graph.py: make_grid_edges, edge_list_to_features"), ("cycle test", "utils/graph_functions.py: is_forest"),
      ("symmetric matrices, exhaustive search, objective", "utils/inference.py"), ("kernels", "src/utils.pyx")],
     ["make_grid_edges", "edge_list_to_features", "is_forest", "expand_sym", "compress_sym", "exhaustive_inference", "objective_primal"],
     "bounded exhaustive enumeration of arguments against definitions by loops", MC, "Complete for the stated sizes.")

prop("P32", "Synthetic data sets contain what was asked for",
     "Every generator returns the requested number of instances, with features of one grid per label grid; the labels are the documented objects (blocks, checkers, boxes, bars, crosses, squares with holes) of the requested size and number; without noise the features encode the labels, and with noise k at most k cells of an instance differ (for Gaussian features the noise has the requested size); the same call with the same seed gives the same data, and seeds matter. Loaders of stored data sets return what the file holds (written by Python 2 or 3), for letters with the images of the words.",
     ["inputs", "configurations"], "all generators, sizes, noise levels and seeds",
     "tests use the default arguments as training data only",
     ["pystruct/datasets/synthetic_grids.py", "pystruct/datasets/dataset_loaders.py"], [("generators", "datasets/synthetic_grids.py"), ("loaders", "datasets/dataset_loaders.py")], ["generate_*", "make_simple_2x2", "load_letters", "load_scene", "load_snakes"],
     "bounded exhaustive enumeration of parameters and seeds against the documented construction", MC,
     "Grids large enough for the objects; generators without a seed argument fix it, except the multinomial checker, the extended checker and unseeded multinomial blocks.")

prop("P33", "Results do not depend on how arrays and collections are stored",
     "The same numbers give the same results however they are stored: features and potentials as 64 or 32 bit floats or as integers of any width, edges and labels as signed or unsigned integers of any width, weights as floats or integers, in arrays that are contiguous or not, C or Fortran ordered, writable or read-only, and data sets in lists, tuples or arrays. This holds for every inference method (labels, relaxed solutions, energies), every operation of every model, single or in batches, and for training, prediction and scoring with every learner.",
     ["inputs", "configurations"], "all models, inference methods, learners, arguments and storage forms of each argument",
     "tests use fresh contiguous float64 arrays and default integers; compiled kernels and type conversions behave differently for other types, and read-only or strided arrays arrive from shared memory, slicing and files",
     INF + MOD + LAT[:1] + TYP + ["src/utils.pyx"], [("kernels and their calls", "src/utils.pyx; models/crf.py, unstructured_svm.py, graph_crf.py: loss augmentation, joint features"),
      ("potentials", "_get_unary_potentials, _get_pairwise_potentials of the models; inference_methods.py")],
     ["inference_dispatch", "compute_energy", "model operations", "learner.fit", "learner.predict", "learner.score"],
     "bounded exhaustive enumeration of operations and storage forms, compared with float64/int64 results", MC,
     "Small integer values that every type represents exactly, in at most two arguments with an unusual form at a time; data sets of matrices (MultiClassClf, BinaryClf) are arrays.")

prop("P34", "Loopy max-product is sound",
     "On graphs with cycles max-product is approximate, but not arbitrary: it returns valid labels; where every component has at most one cycle and message passing converges without ties, the labels are the best ones; edges that carry only a constant do not matter, so that a forest closed by such edges and every tree next to a loopy part get their best labels; nodes whose unary preference exceeds all influence of their edges keep it. Labels do not change if constants are added to potentials, all potentials are scaled, or states and nodes are renamed, on graphs of any density and orientation. max_iter, damping and tol mean what the documentation says.",
     ["inputs", "configurations"], "all graphs with cycles, orientations, edge orders, potentials and parameters", "tests run loopy max-product on a few grids and only compare with trees",
     ["pystruct/inference/maxprod.py"], [("loopy message passing", "iterative_max_product"), ("dispatch on the kind of graph and parameters", "inference_max_product")],
     ["inference_max_product", "inference_dispatch(method='max-product')"], "bounded exhaustive enumeration of graphs, orientations and potentials on the real code against brute force and invariances", MC,
     "Generic potentials without ties; optimality on one cycle is judged where an independent message passing converges.")

prop("P35", "Plots show the recorded data",
     "plot_learning draws what was recorded: each recorded curve of the learner (primal and dual objectives, cached objectives, training losses) appears with exactly its values, placed at the iteration or, with time=True, at the elapsed time where it was recorded; the last objective and the gap are printed. It works for every learner (latent ones show their base learner), for training without iterations, that ended early, was interrupted, or was loaded from a backup. plot_grid shows the given grid cell by cell with the borders between cells.",
     ["inputs", "configurations"], "all learners, options, lengths of training and grids", "no test draws anything and reads it back",
     ["pystruct/plot_learning.py", "pystruct/utils/plotting.py"], [("learning curves", "plot_learning.py: plot_learning"), ("grids", "utils/plotting.py: plot_grid")],
     ["plot_learning", "plot_grid"], "bounded exhaustive enumeration of training runs, lines and cells read back from the figure", MC,
     "matplotlib with a back end without display; losses are recorded only with show_loss_every.")

prop("P36", "The downhill simplex learner minimises the primal objective",
     "PrimalDSStructuredSVM initialises its model from the data and minimises the same objective as the other learners, half the squared norm of the weights plus C times the sum of the slacks: the objective of its weights is never above that of the two points where its search starts, and with a single weight it is the optimum up to the steps of the search; fit returns the learner, whose weights fit the model and can be used for predict and score, and fitting again gives the same result.",
     ["inputs", "configurations"], "all training problems and C", "no test uses the learner",
     ["pystruct/learners/downhill_simplex_ssvm.py"], [("objective and search", "PrimalDSStructuredSVM.fit")],
     ["PrimalDSStructuredSVM.fit", "predict", "score"], "bounded exhaustive enumeration of training problems against an independent quadratic program", MC,
     "Downhill simplex may stop before the minimum in more than one dimension.")

prop("P37", "There are no hidden size limits",
     "Results are correct whatever the number of states, labels, hidden states, features, nodes, edges, types' states or samples: joint features, losses, relaxed extensions, batches, predictions, loss-augmented predictions and latent completions of every model with up to 300 states (also when sizes are inferred from the data), inference, energies, joint features, grids and forest tests with up to 70000 nodes, and training, prediction and scoring with hundreds of samples. In particular nothing changes where a count no longer fits into a narrow number type.",
     ["inputs", "configurations"], "all sizes", "tests use a handful of states and nodes; a narrow integer type, a recursion or a preallocated buffer passes them",
     MOD[:1] + ["pystruct/models/graph_crf.py", "pystruct/models/typed_crf.py", "pystruct/inference/maxprod.py", "pystruct/utils/graph.py"],
     [("models", "models/*.py"), ("message passing", "inference/maxprod.py"), ("grids", "utils/graph.py"), ("kernels", "src/utils.pyx")],
     ["model operations", "inference_dispatch", "make_grid_edges", "is_forest", "learner.fit", "learner.predict", "learner.score"],
     "systematic enumeration of sizes around the limits of number types, against loops and planted unique maximisers", MC,
     "Every size in a list of boundary sizes, not every size up to the largest.")

prop("P38", "Watching training does not change it",
     "Verbosity, the reporting of losses (show_loss_every) and loggers that do not change the learner have no influence on training: with any values of the three, every learner "
     "ends with the same weights, the same recorded curves, constraints and predictions as without.",
     ["configurations", "inputs"], "all learners, options, verbosity levels and loggers", "tests train with one verbosity; code that only runs when verbose is hardly executed by them",
     ["pystruct/learners/", "pystruct/utils/logging.py"], [("verbosity and losses", "learners/*.py: fit"), ("saving", "utils/logging.py: SaveLogger")],
     ["learner.fit", "SaveLogger"], "bounded exhaustive enumeration of watched training runs against unwatched ones", MC,
     "Loggers that do not change the learner; relaxed inference by the interior-point LP solver is left out.")
