FIX.update({
 "inference cache of OneSlackSSVM failed for models with rescale_C": ("P16", "fit raised with inference_cache > 0 and rescale_C"),
 "inference cache of OneSlackSSVM failed on equal relaxed labelings": ("P18", "fit raised or compared wrongly when a relaxed labeling occurred again"),
 "FrankWolfeSSVM failed for models with rescale_C": ("P17", "fit raised"),
 "FrankWolfeSSVM failed for BinaryClf": ("P17", "fit raised"),
 "mini batches of SubgradientSSVM failed for models with rescale_C": ("P20", "fit raised"),
 "SubgradientSSVM with mini batches never stopped without constraints": ("P20", "break_on_no_constraints had no effect"),
})
KNOWN.append(("P19", "restricted-dual", "NSlackSSVM/OneSlackSSVM with negativity_constraint: _solve_n_slack_qp and "
 "_solve_1_slack_qp impose the sign constraints on the dual without multipliers of their own, so that the signs hold "
 "but the weights are not the best ones with these signs (all samples end up unseparated although feasible weights "
 "separate them). A correct program makes two existing tests (repellent potentials) fail, so it is not repaired"))
FIX.update({
 "NotImplementedError for negative averaging windows of StructuredPerceptron": ("P21", "the documented averaging of the last passes was refused"),
 "find_constraint_latent computed the loss of labels instead of hidden states": ("P22", "wrong losses for models with several states per label"),
 "SubgradientLatentSSVM failed for n_jobs > 1": ("P22", "fit raised AttributeError"),
})
FIX.update({
 "LatentSSVM.fit did not return the learner": ("P23", "fit returned None, unlike every other learner"),
 "LatentSSVM.fit ignored the initialize argument": ("P23", "the model was initialised again"),
 "setting C of LatentSSVM overwrote the weights": ("P23", "C unchanged and weights replaced by a number"),
 "SubgradientLatentSSVM.score compared labels with hidden states": ("P23", "wrong scores (and loss curves) for several states per label"),
})
FIX.update({
 "NSlackSSVM ignored violated constraints of labels with zero loss": ("P16", "training stopped at weights that are not optimal"),
 "NSlackSSVM.fit failed if it found no constraint or was interrupted early": ("P24", "fit raised UnboundLocalError"),
 "OneSlackSSVM.fit failed if it was interrupted early and could not be continued": ("P24", "fit raised, warm start failed"),
 "FrankWolfeSSVM.fit failed without dual checks or when interrupted early": ("P24", "fit raised"),
 "fitting a FrankWolfeSSVM again kept the weights of the previous fit": ("P25", "the second fit started at the old weights with new dual variables: wrong results"),
 "fitting a subgradient learner again continued the previous fit": ("P25", "step counter, momentum and averages of the previous fit were used"),
 "timestamps_ of SubgradientSSVM were wrong after a warm start": ("P26", "timestamps were not relative to the start"),
 "loss_curve_ contained the losses of previous fits": ("P25", "loss_curve_ grew over fits"),
 "NSlackSSVM.fit failed for given constraints": ("P26", "fit raised"),
 "objective curves had different lengths after an interrupted fit": ("P24", "curve lengths differed"),
 "OneSlackSSVM with inference cache could not be continued if interrupted early": ("P24", "warm start raised ValueError"),
})
FIX.update({
 "SaveLogger failed for the final model if the file name contains %d": ("P27", "TypeError at the end of fit"),
 "a failed save of SaveLogger destroyed the previous backup and the inference cache": ("P27", "a crash or error during a save left an empty or partial file; the learner lost its inference cache"),
 "OneSlackSSVM kept the weights of the previous fit if C changed before a warm start": ("P26", "the weights were optimal for the old C"),
 "OneSlackSSVM with n_jobs > 1 failed for MultiClassClf": ("P28", "fit raised AttributeError"),
})
FIX.update({
 "FrankWolfeSSVM ignored show_loss_every": ("P18", "no losses were recorded although documented"),
 "training loss of LatentGraphCRF with latent states as labels": ("P29", "score and loss curves of learners on hidden states raised IndexError"),
 "StructuredPerceptron.fit changed the parameter average": ("P30", "get_params gave another value after fit"),
 "generate_bars failed if all bars are vertical": ("P32", "IndexError, and too few features if all bars are horizontal"),
})
FIX.update({
 "forbidden states of latent CRFs were chosen at nodes with many edges": ("P13", "nodes with more than 50 neighbors got states of other labels (completion not optimal, predictions with hidden states for visible nodes)"),
})
FIX.update({
 "MultiLabelClf.joint_feature failed for unsigned integer features": ("P06", "features stored as uint8: OverflowError or wrapped negative features"),
 "EdgeFeatureLatentNodeCRF truncated integer edge features": ("P06", "integer edge features: the mean features of the hidden edges were cut to integers, differently from float features"),
 "joint features of EdgeFeatureLatentNodeCRF without edges": ("P06", "joint_feature raised for graphs without edges"),
})
FIX.update({
 "loss-augmented inference failed or lost fractions for integer and single precision weights": ("P33", "integer weights: the loss was added to integer potentials and lost its fraction, or the kernel rejected the potentials"),
 "loss-augmented inference failed for read-only labels and some unsigned integer types": ("P33", "ValueError or TypeError from the compiled kernel"),
 "MultiClassClf.batch_joint_feature failed for integer, single precision or read-only features": ("P33", "ValueError or TypeError from the compiled kernel"),
 "joint_feature failed for labels of type uint64": ("P33", "TypeError or IndexError: the class pair index became a float"),
 "inference_lp was wrong or failed for unsigned and single precision potentials": ("P33", "unsigned potentials wrapped when negated: not the best labeling; TypeError for float32"),
 "ad3 inference failed for edges of type uint64": ("P33", "TypeError in the ad3 package"),
})
FIX.update({
 'MultiLabelClf failed for edges given as "full" or as a list': ("P12", "AttributeError for the documented edges=\"full\" and for lists of edges"),
 "loss and loss-augmented inference of MultiLabelClf failed for a single label": ("P04", "IndexError during training: class weights were sized by labels, not states"),
})
KNOWN.append(("P12", "multilabel-tree", "MultiLabelClf(edges=\"tree\") (class documentation) and edges=\"chow_liu\" (user guide): "
 "learning the Chow-Liu tree was never implemented (examples/multi_label.py does it outside of the class); not a small repair"))
FIX.update({
 "loopy max-product lost all precision on dense graphs": ("P34", "complete graphs whose edges are oriented cyclically (11 or more nodes), cycles with many iterations: message offsets grew without bound and the labels were arbitrary"),
 "inference_max_product ignored tol on loopy graphs": ("P34", "the parameter had no effect"),
 "StructuredPerceptron never called its logger": ("P27", "no backups were written"),
 "OneSlackSSVM cached one result more than inference_cache": ("P18", "inference_cache_ held inference_cache + 1 results per sample"),
})
FIX.update({
 "plot_learning failed for training without iterations": ("P35", "IndexError for learners whose curves are empty"),
 "plot_learning showed losses at iterations instead of times": ("P35", "with time=True the training loss was drawn over iterations on a time axis"),
 "plot_learning failed for StructuredPerceptron": ("P35", "AttributeError: no objective curve"),
 "plot_grid failed with current matplotlib versions": ("P35", "AttributeError: update_datalim and colours of masked cells"),
 "inference_ad3 ignored inference_exception for a single node type": ("P03", "no exception for fractional solutions"),
 "setInferenceException of typed models had no effect": ("P03", "the flag was not handed to inference"),
})
FIX.update({
 "PrimalDSStructuredSVM did not initialize its model": ("P36", "models without explicit sizes: IndexError or a scalar weight"),
 "PrimalDSStructuredSVM minimized another objective than the other learners": ("P36", "half the squared norm over C plus the mean slack: other weights than the optimum for C"),
})
