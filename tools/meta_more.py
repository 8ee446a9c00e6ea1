prop('C06', 'A sweep resamples every unfixed entry once from its full conditional',
     'In every supported architecture (two- or three-factor layer above a child in any of the implemented models, with zero, one or two two-factor parent layers, or no child and one or two parents), one '
     'call of the sampling function of a matrix updates each of its entries that is not fixed exactly once, and no other. Each update is a metropolised Gibbs update at the current state with logit '
     'lambda x posterior score of the entry given the child data (aligned to this factor) plus, for each parent layer, its lambda x its own model output for this entry, plus the logit of the Bernoulli prior. '
     'The samplers of data tensors below one or two three-factor layers obey the same rule.',
     ['inputs', 'configurations', 'histories'], 'all architectures and models, all factor positions, all sizes, states, masks, lambdas, priors and draws',
     'The tests run short chains from random states and look at reconstruction quality; a wrong axis, prior, parent model or a skipped entry still reconstructs square random data.',
     [MU, WR], [('make_sampling_fct_*', MU), ('get_posterior_score_fct, get_parent_score_fct', MU), ('get_sampling_fct, get_relatives_models', WR)], ['state of the matrix after get_sampling_fct(mat)(mat)'])
prop('C07', 'Fixed entries, fixed matrices and everything not sampled stay untouched',
     'A sampling sweep of one matrix writes only entries of that matrix whose mask of fixed entries is not 1; siblings, child data, parents, masks and dispersion parameters keep their values. '
     'Dispersion updates write only their own parameter, inference writes neither matrices nor parameters marked as fixed, and resetting a latent dimension respects fixed entries. (The update of the first factor of OR-AND-IBP changes both factors and is the subject of C20.)',
     ['inputs', 'configurations', 'histories'], 'all architectures, masks, sizes and sequences of sweeps during inference',
     'No test fixes single entries; the frame over all other arrays is never compared.',
     [MU, WR, LU, MACH, AUX], [('fixed_entries test in the sampling loops', MU), ('members/lbdas filtered by .fixed in infer', MACH), ('reset_dimension', AUX)], ['all arrays of the machine before and after a sweep or inference'])
prop('C08', 'Parallel loops are free of data races',
     'In every loop that is declared parallel (prange in a function compiled with parallel=True), no iteration writes a location that another iteration reads or writes, except accumulations into a scalar that is '
     'reduced by addition. The result therefore does not depend on the order or interleaving of the iterations.',
     ['schedules', 'inputs'], 'all interleavings of the iterations, for all sizes and contents',
     'The tests run with the jit off, where a parallel loop is an ordinary one.',
     [MU, LU, OUT, FZ], [('prange loops of the samplers', MU), ('prange loops of output functions and counters', LU), ('OR_AND_product_expand', OUT), ('MAX_AND_product_fuzzy', FZ)],
     ['footprints of loop iterations'])
prop('C09', 'The dispersion update is the clipped MAP estimate over observed data',
     'Updating the dispersion parameter of a layer of an implemented model with two or three factors sets it to max(0, log((P + alpha) / (ND - P + beta))), where ND is the number of observed (non-zero) data points of '
     'the child, P the number of observed data points equal to the deterministic model output, and (alpha, beta) the beta prior. Missing data and their contents never influence it.',
     ['inputs', 'configurations'], 'all models, two or three factors, all sizes, data including missing values, and priors (alpha, beta >= 1)',
     'One test checks the or-machine at one size with no missing data and a flat prior.',
     [LU, LW], [('make_correct_predictions_counter, make_lbda_update_fct', LU), ('get_update_fct', LW)], ['layer.lbda() after the update', 'return value of the counter'])
prop('C10', 'Inference records the states it sampled and stays in the state space',
     'After infer(no_samples=S), every matrix and dispersion parameter that was not fixed has a trace of S entries, where entry t is its value after its t-th update of the sampling phase, and its last entry is the current value (dispersions are recorded in single precision); '
     'mean() is the average of the trace (the current state if there is none), and set_to_map() sets every entry of a matrix to 1 where its mean is positive and to -1 elsewhere. All sampled matrices have entries in {-1,1} at every recorded step.',
     ['histories', 'configurations'], 'all machines of the supported architectures, all numbers of samples, all update orders',
     'The tests look at a final reconstruction error only; a shifted, aliased or truncated trace goes unnoticed.',
     [MACH], [('infer, allocate_trace_arrays, update_trace, mean', MACH)], ['mat.trace, lbda.trace, mean()'])
prop('C11', 'Layer outputs are probabilities computed by the chosen technique',
     'For layers of the implemented models, output() returns the probability of emitting a 1 at every data position: the deterministic output of the current state (point_estimate) or of the factors\' rounded posterior means '
     '(factor_map) mapped to {0,1}, the exact fuzzy output of the posterior means (factor_mean, factor_mean_old), or, for layers whose factors and dispersion were all sampled, the average over the trace of the deterministic output mapped to {0,1} (mc). With noisy_emission each value p '
     'becomes p s + (1-p)(1-s), s being the logistic function of the mean dispersion, and with map_to_probabilities=False the result is mapped to 2p-1.',
     ['inputs', 'configurations'], 'all models, two or three factors, all traces, dispersions and option combinations',
     'The tests call output() with one technique and compare a thresholded error rate.',
     [MACH, AUX], [('MachineLayer.output', MACH), ('lom_generate_data_fast', AUX)], ['return value of layer.output(...)'])
prop('C12', 'Models are replaced by an equivalent canonical model',
     'canonise_model maps every model name OUTER-INNER over {OR, NOR, AND, NAND, XOR, NXOR} that it accepts to an implemented model such that, for all factors, the original product equals the canonical product with factors '
     'inverted iff invert_factors and the output inverted iff invert_data. The child data are negated in place exactly if invert_data, and otherwise left alone.',
     ['inputs', 'configurations'], 'all model names, all factor contents, any number of factors and latent dimensions',
     'The tests create every model but check only that inference runs.',
     [AUX, MACH], [('canonise_model, replace_equivalent_model', AUX), ('Machine.add_layer', MACH)], ['return value of canonise_model', 'child data after add_layer', 'layer.invert_data, layer.invert_factors'])
prop('C13', 'Expected densities are the exact expectations of the model output',
     'For every supported model, any number L of latent dimensions, K of factors and factor density f in [0,1], expected_density returns the probability that the model output is 1 for independent factor entries that are 1 with probability f.',
     ['inputs', 'configurations'], 'all model names, all L >= 1, K >= 2, f in [0,1]',
     'One (unstable) test compares a Monte Carlo estimate at a single setting.',
     [AUX], [('expected_density, get_lom_class', AUX)], ['return value of expected_density'])
prop('C14', 'Train/test splits hide exactly the test entries and nothing else',
     'split_train_test returns a training copy and a boolean mask such that the training copy is 0 where the mask is set and equals the data elsewhere, and the mask selects observed entries only; a balanced split selects equally many ones and minus ones, int(split/2 x number of observed entries) each; an unbalanced split hides each observed entry by its own draw, all with the same probability split / (fraction of observed entries). '
     'split_test_train hides, for {-1,1} data, int(p/2 x size) ones and equally many minus ones (zeros, for {0,1} data) and leaves the rest. The input data are not modified.',
     ['inputs'], 'all data shapes and contents for which the split sizes are available, all random draws',
     'There is no test of the splits.',
     [EXP, AUX], [('split_train_test', EXP), ('split_test_train', AUX)], ['returned training data and mask'])
prop('C15', 'Noise flips each observed entry independently with its own probability',
     'add_bernoulli_noise, add_bernoulli_noise_2d and add_bernoulli_noise_2d_biased return a copy in which exactly those entries are negated whose own uniform draw - a draw that no other entry depends on - is below the flip probability of that entry (p, or p_plus for ones and p_minus for minus ones); '
     'all others, in particular missing ones, are unchanged. The input is not modified, and a given seed determines the result.',
     ['inputs'], 'all shapes, contents, probabilities and draws', 'There is no test of the noise functions.',
     [AUX], [('add_bernoulli_noise, add_bernoulli_noise_2d, add_bernoulli_noise_2d_biased', AUX)], ['returned array', 'input array'])
prop('C16', 'The max machine updates and outputs follow its generative model',
     'In a MAX-AND layer each data point is 1 with probability equal to the largest dispersion of a latent dimension that is on in both its factor rows, or the clamped (last) dispersion if none is. The deterministic output is this probability and the '
     'fuzzy output its expectation for independent factor entries; layer.output() gives the former for the current state (point_estimate), the rounded posterior means (factor_map) or averaged over the traces (mc), and the latter for the posterior means (factor_mean). '
     'The score of a factor entry is the log-likelihood of the data with it set to 1 minus that with it set to -1, at the current dispersions; a sweep draws every unfixed entry by it (flat prior) and changes nothing else. '
     'After its update every dispersion lies in (0,1), the clamped one being the smallest, the others follow from ranking the dimensions one after the other, the next one being the one with the largest smoothed fraction '
     '(ones + 1) / (observed + 2) among the observed points that it but no dimension ranked before it explains; this fraction is its dispersion. The clamped dispersion is that fraction of the points nothing explains, or the smallest other one.',
     ['inputs', 'configurations'], 'all sizes, factor contents, data and dispersions',
     'One test checks reconstruction on well separated data where all dispersions are nearly equal.',
     [MM, OUT, FZ, MACH], [('posterior_score_MAX_AND_2D, draw_MAX_AND_2D, lbda_MAX_AND, compute_lbda_ratios', MM), ('MAX_AND_product_2d', OUT), ('MAX_AND_product_fuzzy', FZ), ('MachineLayer.output', MACH)],
     ['scores, outputs, factor values and dispersions of MAX-AND layers'])
prop('C17', 'Cleaning up removes or resets exactly the redundant latent dimensions',
     'A latent dimension is redundant if in some factor all its entries are -1, or if in some factor it equals an earlier dimension that stays. clean_up_codes(layer, reset=False, clean=True) removes exactly the redundant dimensions from all factors and their fixed-entries masks '
     '(in a MAX-AND layer also from the dispersions and their log ratios); the other dimensions keep contents and order. With reset=True (the default) the number of dimensions stays: exactly the redundant dimensions (here every earlier dimension stays, with the contents resetting leaves it) have their entries set to -1 in all factors, '
     'except fixed entries, which keep their value. Nothing else in the layer changes, the clean-up ends, and it returns True if there was a redundant dimension and False otherwise. remove_dimension and reset_dimension do this for a single given dimension.',
     ['inputs', 'histories'], 'all factor contents, any number of latent dimensions and factors', 'There is no test of the clean-up.',
     [AUX], [('clean_up_codes, remove_dimension, reset_dimension', AUX)], ['factor values and masks after clean_up_codes'],
     note='Layers of two and three factors. That the predicate "redundant" (defined by recursion over the dimensions) exists is not proved.')
prop('C18', 'Burn-in terminates on convergence or the limit and anneals as documented',
     'Every burn-in iteration draws each sampled matrix once, then updates each sampled dispersion - except that the first fix_lbda_iters of the initial burn_in_min iterations leave the dispersions alone, and that with annealing a sampled dispersion (scalar, positive) '
     'instead rises linearly over these burn_in_min iterations to its initial value. Afterwards convergence is tested after every convergence_window (at least 2) iterations, on exactly the dispersions recorded in this window: it is found if for every dispersion the logistic functions of the means of '
     'the two halves of the window differ by less than eps. At every such point all layers marked auto_clean or auto_reset are cleaned up. Burn-in stops after burn_in_min iterations at the first such point at which the clean-up finds nothing, and otherwise after max(burn_in_min, burn_in_max) iterations, removing then the redundant dimensions of layers marked auto_reset; infer() passes its settings on.',
     ['histories', 'configurations'], 'all numbers of iterations, windows, limits, and dispersion histories; fixed members, second layers, auto-clean', 'The tests run inference with fixed settings and only look at the result.',
     [MACH, AUX], [('Machine.burn_in, Machine.infer', MACH), ('Trace.check_convergence', MACH), ('check_convergence_single_trace', AUX)], ['iterations drawn, dispersion values during burn-in'],
     note='Machines of one or two layers with two or three factors; vector-valued dispersions (MAX-AND) in burn_in only by the bounded cross-check.')
prop('C19', 'The qL-AND model counts active sources against its threshold',
     'The qL-AND output of an entry is 1 if at least q latent dimensions are on in both vectors and -1 otherwise, q >= 1 being the threshold of its column; layer.output maps it to 1 and 0. '
     'The score of a factor entry is the sum of the data values over the positions where that entry decides the output; a sweep over a factor draws every unfixed entry from its full conditional at the layer dispersion and prior and changes nothing else; '
     'the dispersion update counts agreement with this output. Where thresholds are sampled, every one is drawn once from its posterior, proportional to gamma^q/q! exp(lambda A_q) for q = 1..5, A_q being the number of observed data of its column that agree with the output at q.',
     ['inputs'], 'all sizes, contents and thresholds', 'There is no test of the qL-AND model.', [OUT, MU], [('qL_AND_product', OUT), ('posterior_score_fct_qL_Z, posterior_score_fct_qL_U, sample_qL_factors_Z, sample_qL_factors_U, sample_qL_q, random_choice', MU)], ['layer.output, layer.lbda.val, factor values after a sweep, thresholds drawn'])
prop('C20', 'The IBP sampler keeps factors consistent',
     'After an update of the first factor of an OR-AND-IBP layer both factors have the same number of columns, entries in {-1,1} and as many rows as before, the masks of fixed entries have the shapes of their factors, and the data, the dispersion and the priors are not modified. '
     'The second factor and the dispersion are updated as in the OR-AND model. A recorded sample of a factor is the factor at that time, padded with columns of -1, however many columns it has.',
     ['inputs', 'histories'], 'all sizes, contents, hyperparameters and draws', 'The one test of this model did not run.', [MU, WR, MACH, LU],
     [('sample_2d_IBP', MU), ('IBP_sampler', WR), ('Trace.allocate_trace_arrays_IBP, Trace.update_trace_IBP', MACH)], ['factors and masks after an update, traces'],
     note='Shapes, domains and frame of the update, not the distribution of its draws. That inference records through these functions only by the bounded cross-check.')
prop('C21', 'Numeric kernels index inside their arrays and never overflow',
     'The output, score, sampling and counting kernels never use a computed index outside [0, size) of the array they index, and no value they compute, store, or pass through a declared numba signature exceeds the range of its integer type, for all sizes whose products fit in int64.',
     ['inputs'], 'all sizes and contents', 'The tests use sizes of a few hundred at most; negative indices wrap silently and the compiled kernels do not check.',
     [OUT, FZ, SC, MU, LU], [('all kernels', OUT), ('index arithmetic of the scores', SC)], ['indices and integer ranges inside the kernels'])
prop('C22', 'Experiments train on the training data only and score the held-out entries',
     'LOM_predictive trains one machine of the requested model, number of dimensions, initial dispersion and annealing on the training data alone (held fixed, inverted exactly if the model is replaced by one of inverted data), and returns as accuracy the fraction of the entries selected by the mask '
     'at which its output by posterior means (factor_mean) exceeds 1/2 exactly where the data - inverted likewise - are 1, with the model name, the number of dimensions and the factor means. Data, training data and mask are not modified, so experiments can share them. '
     'The grid search splits the data once (reducing the split while the data do not allow it), runs each configuration of model, size and index (by default all implemented models) on that split with the given settings, and returns one row and the factor means per configuration, in the same order. '
     'tensorm_reconstruct does the same with an OR-AND machine on all of the data, coded {0,1} (then mapped to {-1,1}) or {-1,1}, and returns the outputs by posterior means and by their rounding. generate_random_tensor returns the Boolean product of the factors it returns, a copy of it with Bernoulli noise, and the factor density d = (1 - (1 - density)^(1/L))^(1/3); every factor entry is 1 by its own draw with probability d.',
     ['inputs', 'configurations', 'histories'], 'all shapes, contents, masks with at least one entry, settings, states after inference', 'There is no test of the experiments beyond one call of the split.',
     [EXP], [('LOM_predictive, LOM_hyperparms_parallel_gridsearch, tensorm_reconstruct, generate_random_tensor', EXP)], ['returned accuracies, tables, tensors and factors', 'the arrays passed in'],
     note='The process pool is modelled as running the experiments one after the other and returning the results in order; the number of configurations and of refused splits is that of the tasks (up to three sizes, two refusals).')

CLAIMED = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22'}
for i, (d, c, n, r) in enumerate(P):
    P[i] = (d, d['id'] in CLAIMED, n, r or 'contracts not finished yet')
