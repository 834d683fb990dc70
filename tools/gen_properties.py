"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))
F = 'pyforecaster/'
M = F + 'forecasting_models/'

p('C01', 'Parallel split/apply/combine equals one in-order pass',
  'Applying a chunk-wise function to a numeric dataframe, or to a list of frames, through the parallel '
  'split/apply/combine utilities (memory reduction included) returns every row and every column exactly once, in the '
  'original order, under the original labels, with the values that one in-order pass over the same data gives. '
  'When per-chunk results are asked for instead, they come back one per chunk in chunk order. '
  'Both hold for either axis, any number of splits, any number of cores (one included), either parallel backend '
  'and whatever order the workers finish in.',
  ['schedules', 'inputs', 'configurations'],
  'every frame shape, label set, split count, axis, backend and core count, and every order in which workers take and '
  'finish the chunks',
  'The tests call the utilities twice, on one shape, with the ray backend, and compare nothing; completion order, core '
  'count and the process-pool backend are never varied.',
  [F + 'big_data_utils.py'],
  [('contiguous splitting', F + 'big_data_utils.py:array_split'),
   ('dispatch and recombination', F + 'big_data_utils.py:fdf_parallel'),
   ('process pool map', F + 'big_data_utils.py:mapper'),
   ('column-wise down-casting', F + 'big_data_utils.py:reduce_mem_usage')],
  observe=['the returned frame/tuple/list'])

p('C02', 'A failing worker surfaces and leaves nothing broken behind',
  'If a worker task of a parallel operation (dataframe utilities, feature generation, scenario-tree prediction, model '
  'fitting or prediction, hyper-parameter tuning) raises, or its worker process dies, or the workers cannot be started, '
  'the call ends with an error, or with the full correct result: it neither hangs nor returns a partial or substituted one. '
  'Afterwards no worker pool started by the call is still running and a ray session opened by the caller is still open; '
  'a ray session opened by the call itself is closed. '
  'Repeating the same call on the same objects once the fault is gone gives what a run that never failed gives.',
  ['schedules', 'fault_sequences', 'crash_points'],
  'every task index, every point of failure (before, during or after the task computed), every kind of worker failure '
  'and every completion order of the other tasks',
  'No test makes a worker fail; the fault has to hit a chosen task in a chosen schedule.',
  [F + 'big_data_utils.py', F + 'scenarios_generator.py', F + 'formatter.py', M + 'gradientboosters.py',
   M + 'randomforests.py', M + 'holtwinters.py'],
  [('ray dispatch', F + 'big_data_utils.py:fdf_parallel'), ('pool map', F + 'big_data_utils.py:mapper'),
   ('tree workers', F + 'scenarios_generator.py:ScenGen.predict_trees'),
   ('transformer threads', F + 'formatter.py:Formatter._transform'),
   ('per-step model workers', M + 'gradientboosters.py:LGBMHybrid.fit'),
   ('per-step model workers', M + 'randomforests.py:QRF.fit/predict'),
   ('trial workers', M + 'holtwinters.py:tune_hyperpars')],
  observe=['exception or result of the call', 'open pools and ray session after the call', 'the repeated call'])

p('C03', 'Parallel feature generation equals sequential feature generation',
  'A formatter whose transformations read only original columns produces the same feature and target tables (values, '
  'labels, column and row order) and the same feature metadata whether its transformations run one after another or in '
  'concurrent threads. '
  'For a global-form dataset the stacked tables, their order and the formatter\'s feature metadata are the same whether '
  'the signals are transformed sequentially or by parallel workers. '
  'Both hold for every schedule and every core count, including more signals than cores and one core.',
  ['schedules', 'inputs', 'configurations'],
  'every interleaving of the transformer threads, every completion order of the signal workers, every core count and '
  'every transformer configuration (rolling functions, lags, relative lags, bins, target normalisers)',
  'One test runs the threads once on one schedule chosen by the OS; the worker path is commented out in the tests.',
  [F + 'formatter.py', F + 'big_data_utils.py'],
  [('thread pool over transformers', F + 'formatter.py:Formatter._transform'),
   ('worker batches over signals', F + 'formatter.py:Formatter.transform'),
   ('metadata simulation in the parent', F + 'formatter.py:Formatter._simulate_transform')],
  state=[('Transformer.metadata', 'time span of every generated feature', F + 'formatter.py:Transformer.transform')],
  observe=['returned x and target', 'transformer metadata', 'step-ahead pruning of the result'])

p('C04', 'Parallel scenario-tree prediction: one right tree per row, in row order',
  'Predicting scenario trees for a batch of rows returns exactly one tree per row in row order, and each tree (nodes, '
  'edges, times, values and probabilities) equals the one predicted sequentially, with online reduction and with '
  'pre-fitted trees, with or without an additional initial node. '
  'This holds for any number of workers or cores and any completion order. '
  'Every returned tree has a single root, a probability of one at every time step, and children whose probabilities sum '
  'to their parent\'s.',
  ['schedules', 'inputs', 'configurations'],
  'every batch size, node layout, tree type, core count and completion order of the tree workers',
  'Tests only predict trees sequentially, or in parallel without comparing anything.',
  [F + 'scenarios_generator.py', F + 'forecaster.py', F + 'tree_builders.py', F + 'scenred.py'],
  [('parallel online reduction', F + 'scenarios_generator.py:ScenGen.predict_trees'),
   ('chunked superposition on pre-fitted trees', F + 'scenarios_generator.py:tree_gen_chunk')],
  observe=['the returned list of trees'])

p('C05', 'Per-step models fitted and queried in parallel equal the sequential ones',
  'The multi-step forecasters that train or query one model per step ahead (gradient boosting and quantile forests) give '
  'the same point and quantile forecasts whether the per-step models are fitted and queried sequentially or by parallel '
  'workers. '
  'The forecast in column i always comes from the model trained for step i, also for the Holt-Winters combination of one '
  'model per horizon. '
  'Both hold for any completion order, worker count and core count, small machines included.',
  ['schedules', 'configurations', 'inputs'],
  'every completion order of the per-step workers, every core count and every split between single-step and '
  'multi-step models',
  'These forecasters are not exercised by the tests that can run here, and no test compares the two modes.',
  [M + 'gradientboosters.py', M + 'randomforests.py'],
  [('process pool over steps', M + 'gradientboosters.py:LGBMHybrid.fit'),
   ('process pool over steps', M + 'gradientboosters.py:LGBMHybrid.predict_parallel'),
   ('process/thread pools over steps', M + 'randomforests.py:QRF.fit/predict')],
  state=[('models', 'list of per-step models, position = step', M + 'gradientboosters.py')],
  observe=['predict', 'predict_quantiles'])

p('C06', 'Hyper-parameter tuning returns the best trial whatever the schedule',
  'Tuning the hyper-parameters of an adaptive forecaster returns exactly the candidate whose out-of-sample one-step '
  'to n-step error is the smallest among the candidates drawn, as re-evaluating every candidate on its own confirms. '
  'The choice does not depend on the order in which trial workers finish, on their number, or on whether trials run '
  'in parallel or one after another. '
  'Trials do not influence each other, and the settings of the forecaster that are not tuned stay as the caller set them, '
  'apart from the flag that asks for the tuning.',
  ['schedules', 'configurations', 'histories'],
  'every completion order of the trials, worker count, number of target series and trial budget, in parallel and '
  'sequential mode',
  'The tests that tune models need data missing from the repository; none checks the choice against the candidates.',
  [M + 'holtwinters.py', M + 'fast_adaptive_models.py'],
  [('trial sampling, dispatch and argmin', M + 'holtwinters.py:tune_hyperpars'),
   ('one trial', M + 'holtwinters.py:fit_sample'), ('trial score', M + 'holtwinters.py:score_autoregressive')],
  observe=['parameters of the tuned forecaster'])

p('C07', 'Cross-validation and search histories keep trials apart',
  'Every trial of a hyper-parameter search is scored by a model trained from scratch with exactly that trial\'s '
  'parameters on that trial\'s training fold: repeating the trial on its own, on a new copy of the original forecaster, '
  'gives the same score. '
  'Stored replies are one per completed trial, in trial order, and each holds that trial\'s forecasts aligned with the '
  'test rows of its fold. '
  'Both hold for any sequence of trials, either cross-validation type, and after a trial that failed.',
  ['histories', 'fault_sequences', 'configurations'],
  'every sequence of trial parameters, fold choices and trial failures, for list, generator and integer fold '
  'specifications',
  'The tests run two or three trials and check only that numbers come out; nothing compares a late trial with the same '
  'trial run alone.',
  [F + 'trainer.py', F + 'forecaster.py'],
  [('trial evaluation', F + 'trainer.py:optuna_objective'), ('fold evaluation', F + 'trainer.py:cross_validate'),
   ('study loop and storage', F + 'trainer.py:hyperpar_optimizer')],
  state=[('stored replies', 'one entry per completed trial', F + 'trainer.py:hyperpar_optimizer')],
  observe=['scores in the study', 'stored replies'])

p('C08', 'Holt-Winters streams: batching, checkpoints and gaps do not change forecasts',
  'After fitting, feeding observations to a Holt-Winters forecaster in consecutive batches of any sizes gives the same '
  'forecasts as feeding them at once. '
  'Saving its states (by its state getter or by pickling) at any point and continuing from the saved copy, in the same or '
  'in a new object, gives the same forecasts as never having stopped. '
  'A missing observation acts as if the forecaster\'s own one-step-ahead forecast had been observed, so forecasts '
  'issued after the gap stay finite.',
  ['histories', 'crash_points', 'inputs'],
  'every partition of the stream into batches, every crash/restore point and every pattern of missing observations',
  'The Holt-Winters tests cannot run here (missing data) and even then feed one batch; crash points and gaps are never '
  'exercised.',
  [M + 'holtwinters.py'],
  [('state carry-over', M + 'holtwinters.py:HoltWinters.predict'), ('recursion', M + 'holtwinters.py:run'),
   ('checkpointing', M + 'holtwinters.py:HoltWinters.get_states/set_states')],
  state=[('a, b, s1, s2', 'level, trend, two seasonal buffers', M + 'holtwinters.py:HoltWinters')],
  observe=['predict', 'predict_quantiles', 'get_states'])

p('C09', 'Adaptive Fourier/Kalman forecasts are read-only, causal and survive a restart',
  'Predicting with a fitted adaptive Fourier or Kalman forecaster does not change it: any sequence of predictions, in any '
  'order and on any stretches of data, gives each time what the first prediction on that data gave, and the forecaster does '
  'not grow. '
  'The forecast issued at a row depends only on the training data and on rows up to it, so predicting a prefix gives the '
  'prefix of the forecasts. '
  'A copy of the forecaster obtained by pickling or deep-copying at any point forecasts the same.',
  ['histories', 'crash_points', 'inputs'],
  'every history of predict calls and every point at which the forecaster is pickled and restored',
  'The tests of these models cannot run here and would call predict once; restart is never attempted.',
  [M + 'fast_adaptive_models.py'],
  [('state stored only while fitting', M + 'fast_adaptive_models.py:Fourier_es.run/FK.run/FK_multi.run')],
  state=[('states', 'coefficients, covariances, window and error level after the fit',
          M + 'fast_adaptive_models.py:StatefulForecaster')],
  observe=['predict', 'predict_quantiles', 'pickled size'])

p('C10', 'Prediction is a pure read of a fitted forecaster, also from concurrent threads',
  'On a fitted linear, gradient-boosting, quantile-forest, persistence, random-Fourier-feature or neural forecaster, any interleaving of point, '
  'quantile, scenario and tree predictions, from one or from several concurrent threads sharing the forecaster and the '
  'input frames, returns to each call what that call returns when made alone. '
  'For forecasters that use only a row\'s own features (all but the seasonal persistence) the point and quantile forecasts of '
  'a row do not depend on which other rows are in the same call. '
  'What the caller does with the training data after the fit changes no forecast.',
  ['schedules', 'histories', 'inputs'],
  'every interleaving of concurrent prediction calls at the granularity of source lines, every history of earlier calls '
  'and every way to split the rows into calls',
  'Tests call predict once from one thread.',
  [F + 'forecaster.py', M + 'gradientboosters.py', M + 'randomforests.py', M + 'benchmarks.py',
   M + 'neural_models/base_nn.py', F + 'scenarios_generator.py'],
  [('no state written while predicting', F + 'forecaster.py:ScenarioGenerator.predict_*'),
   ('categorical encoding', F + 'forecaster.py:encode_categorical')],
  observe=['results of predict, predict_quantiles, predict_scenarios, predict_trees'])

p('C11', 'Refitting a forecaster equals fitting a new one',
  'Fitting a forecaster that has already been fitted, on other data, other columns, other categories or another number of '
  'steps ahead, and possibly used for predictions or interrupted by an error in between, gives the same point, quantile and '
  'scenario forecasts as fitting a newly constructed forecaster with the same settings and random state on the same data. '
  'Fitting and using other forecasters, before or at the same time, makes no difference either. '
  'This covers the linear, gradient-boosting, quantile-forest, persistence, brutal-regression and neural forecasters.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of fits, predictions and failed fits that precedes the last fit',
  'No test fits the same object twice.',
  [F + 'forecaster.py', M + 'gradientboosters.py', M + 'randomforests.py', M + 'benchmarks.py',
   M + 'neural_models/base_nn.py'],
  [('fit replaces what an earlier fit left', F + 'forecaster.py, ' + M + '*.py: fit methods')],
  state=[('fitted models, encoders, error distributions', 'must come from the last fit only', F + 'forecaster.py')],
  observe=['predict', 'predict_quantiles'])

p('C12', 'Online features equal batch features, and a restart does not change them',
  'Transforming, at any time, only the recent window that the time limits of the formatter\'s transformers and normalisers call for gives for the last row the same features, '
  'time and holiday columns and normalisers as the batch transformation of the whole history gives for it, and later rows or '
  'corrections to later rows never change the features of earlier ones. '
  'The result depends only on the formatter\'s configuration and the data, not on which windows of the same sampling it transformed '
  'before. '
  'Pickling the formatter and continuing in a new process, under any string-hash seed, at any point changes neither '
  'values nor column order.',
  ['histories', 'crash_points', 'inputs'],
  'every serving history (arrival order, window lengths, late and corrected rows) and every restart point and hash seed',
  'Tests transform one complete frame; serving window by window, late data and restarts are never simulated.',
  [F + 'formatter.py'],
  [('rolling and lag transforms look back only', F + 'formatter.py:Transformer.transform'),
   ('time limits', F + 'formatter.py:Formatter.get_time_lims'),
   ('holiday and time features', F + 'formatter.py:add_holidays/add_time_features')],
  observe=['returned x of the window and of the batch', 'column order'])

p('C13', 'Saving and loading neural forecasters is crash-safe and lossless',
  'If saving a neural forecaster over an earlier checkpoint is interrupted at any point (process killed, power lost, disk full, '
  'write error, short write, serialisation failure), the path still holds a complete checkpoint: the earlier one or the new '
  'one, never a torn or incomplete one. '
  'A save that reports success is durable and complete. '
  'This holds also while several threads save to and load from the same path. '
  'A forecaster loaded from a checkpoint, in the same or a new process, gives the same point, quantile and scenario forecasts '
  'as the one that was saved.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every crash or fault position in the sequence of file operations of a save, every history of saves and loads, and every '
  'neural architecture with its configuration',
  'The tests of neural models cannot run here, save once and load once in the same process, and no test injects a disk fault.',
  [M + 'neural_models/base_nn.py', M + 'neural_models/ICNN.py'],
  [('checkpoint writing', M + 'neural_models/base_nn.py:NN.save'), ('checkpoint reading', M + 'neural_models/base_nn.py:NN.load'),
   ('what is saved', M + 'neural_models/base_nn.py:NN.get_serializable_properties')],
  observe=['file contents after the crash', 'forecasts of the loaded model'])

p('C14', 'Results are reproducible from the given seeds alone',
  'With a fixed random state, scenario and tree predictions are the same (up to the documented 1e-6 jitter) and post-fit row '
  'subsampling selects the same rows, whatever else has drawn random numbers before or concurrently, whatever the wall clock '
  'says or does, and after a restart of the process. '
  'With a fixed random state a quantile forest fitted twice forecasts the same, in parallel or not. '
  'Different random states give different scenarios.',
  ['schedules', 'histories', 'configurations'],
  'every history of other random draws, interleaving of concurrent callers, clock jump, core count and process restart',
  'Tests seed once and run once; the surrounding randomness, the clock and the schedule are never varied.',
  [F + 'forecaster.py', F + 'scenarios_generator.py', F + 'copula.py', M + 'randomforests.py'],
  [('seeded row subsampling', F + 'forecaster.py:_maybe_subsample_for_scengen'),
   ('seeded copula sampling', F + 'copula.py:HourlyGaussianCopula.sample'),
   ('seed forwarding', F + 'forecaster.py:predict_scenarios/predict_trees')],
  observe=['scenarios, trees, error distributions, forecasts'])

p('C15', 'Inputs handed to the library are never modified',
  'Data handed over by the caller (feature and target frames, categorical columns, node layouts, fold lists, '
  'parameter dictionaries) is the same before and after fitting, predicting, transforming, tuning and cross-validating: values, '
  'dtypes, labels and order. '
  'This holds also when the call fails part-way and when several threads share the inputs.',
  ['histories', 'fault_sequences', 'schedules'],
  'every sequence of library calls that share inputs, including calls that fail at an injected point and calls that run '
  'concurrently',
  'Tests build fresh inputs for each call and never look at them again.',
  [F + 'forecaster.py', F + 'formatter.py', F + 'trainer.py', F + 'tree_builders.py', M + 'holtwinters.py',
   M + 'randomforests.py'],
  [('copies before writing', F + 'formatter.py:Transformer.transform, ' + F + 'forecaster.py:encode_categorical')],
  observe=['fingerprints of the inputs before and after'])

R = F + 'reconciliation/reconciliation.py'
p('C16', 'Hierarchical forecasts add up, are rightly labelled and survive history',
  'A fitted hierarchical reconciler answers every question about any rows as a function of the fit and of the rows alone: the '
  'reconciled forecast of every aggregate equals the sum of those of its bottom series at every step; each step is reconciled with '
  'the weights its own training errors give, so that on the training rows the recorded reconciled errors are met; each value is '
  'labelled with the series, step and time it belongs to; base forecasts and quantiles are those of the base forecasters alone; '
  'every scenario is the forecast plus a training error trace of the same hour (of the base errors for base scenarios); scores '
  'compare each series with its own targets. None of this depends on the order in which series and rows arrive, on the number of '
  'rows, on earlier, failed or concurrent calls, on other reconcilers, on copies or on restarts; and a reconciler fitted again, '
  'also after fits that failed, equals a new one.',
  ['histories', 'crash_points', 'schedules', 'fault_sequences', 'inputs'],
  'every hierarchy, arrival order, stretch of rows and sequence of fits, questions, failures, restarts and concurrent calls',
  'The only test fits one hierarchy with columns in the order they were generated and asks about exactly the training rows.',
  [R], [('fit', R + ':HierarchicalReconciliation.fit'), ('reconcile', R + ':HierarchicalReconciliation.reconcile'),
        ('scenarios', R + ':HierarchicalReconciliation.predict_scenarios'),
        ('scores', R + ':HierarchicalReconciliation.compute_kpis')],
  observe=['predict', 'predict_quantiles', 'predict_scenarios', 'compute_kpis', 'errs_hat', 'errs_tilde'])

p('C17', 'Normalisation touches only the target, and is undone exactly',
  'With a normalising expression, the features derived from the normalised target and the targets themselves are those of the same '
  'formatter without it after applying the expression with the normalising columns of the same row; other features and targets are '
  'untouched. Denormalising point or quantile forecasts of any rows, in any order or number, applies the inverse expression to each '
  'row and level, so that normalised targets come back as the original ones, and forecasters that own the formatter forecast in the '
  'target\'s units. This does not depend on which windows were transformed before, on calls that failed, on parallel transformation, '
  'on copies, restarts or threads.',
  ['histories', 'inputs', 'crash_points', 'schedules'],
  'every formatter configuration with an invertible expression, and every sequence of windows transformed, forecasts denormalised, '
  'failures, restarts and concurrent calls',
  'Tests undo one expression right after it was applied, on all rows, with one signal.',
  [F + 'formatter.py', F + 'forecaster.py'],
  [('normalise', F + 'formatter.py:Formatter.normalize'), ('denormalise', F + 'formatter.py:Formatter.denormalize'),
   ('forecasts in target units', F + 'forecaster.py:ScenarioGenerator.anti_transform')],
  observe=['transform', 'denormalize', 'predict'])

p('C18', 'Features look exactly where their metadata says, folds do not leak',
  'Every generated feature and target equals the function its metadata names, of its own signal, over the declared window from start '
  'to end relative to the row; measurements outside that window, corrected, late or lost, never change it; rows are present exactly '
  'when all their windows (and the rows that bins are lagged from) are available; the time limits are the extremes of the windows; pruning at a step ahead keeps exactly the '
  'features whose windows satisfy its rule. With time-based folds every row is tested once, no training row lies within the look-back '
  'of a test row, and corrupting the measurements that only test rows may see changes no training row, nor the other way round. This '
  'holds for lags, nested aggregations and bins, in parallel and in global form, and whatever windows were transformed, calls failed, '
  'copies made or restarts happened before, and for several threads using one formatter.',
  ['histories', 'configurations', 'crash_points', 'schedules', 'inputs'],
  'every set of transformers, sampling and sequence of windows transformed, failures, restarts and interleavings of the worker threads',
  'Tests look at the shape of a few outputs; none compares what a feature is made of with the metadata it is pruned by.',
  [F + 'formatter.py'],
  [('features and metadata', F + 'formatter.py:Transformer.transform'), ('time limits', F + 'formatter.py:Formatter.get_time_lims'),
   ('pruning', F + 'formatter.py:Formatter.prune_dataset_at_stepahead'), ('folds', F + 'formatter.py:Formatter.time_kfcv')],
  observe=['transform', 'metadata', 'get_time_lims', 'prune_dataset_at_stepahead', 'time_kfcv'])

p('C19', 'Input-convex networks stay convex; optimising is a pure read',
  'After every fit, completed or interrupted anywhere, refit, copy, save and load, the forecasts of the partially input-convex '
  'networks are convex (non-decreasing for the monotone network) in their optimisation variables. Optimising the variables of a row '
  'returns what the same network would return had it never optimised anything before, whatever was asked, fitted, loaded, failed '
  'or runs concurrently, and the same from copies and loaded networks; the inputs that are not optimised come back as given, the '
  'forecast returned is that of the network for the inputs returned, and the network does not change.',
  ['histories', 'crash_points', 'schedules', 'fault_sequences'],
  'every network configuration and sequence of fits, interrupts, optimisations, checkpoints, copies and concurrent calls',
  'The networks\' tests need data that are not shipped, and look at no network after a failure or beside another call.',
  [M + 'neural_models/ICNN.py', M + 'neural_models/base_nn.py', M + 'neural_models/neural_utils.py', M + 'neural_models/layers.py'],
  [('optimisation', M + 'neural_models/ICNN.py:PICNN.optimize'), ('projection', M + 'neural_models/neural_utils.py:reproject_weights'),
   ('training', M + 'neural_models/base_nn.py:NN.fit')],
  observe=['predict', 'optimize', 'pars'])

# ---- not claimed ----
p('C20', 'Quantile forecasts are ordered and calibrated on the training errors',
  'Predicted quantiles never cross as the probability level grows, and on the fitting data the error quantiles they add are the '
  'empirical ones.',
  ['inputs'], 'every data set and quantile grid', 'Tests sample a few grids.',
  [F + 'forecaster.py', M + 'randomforests.py'], [('error distribution', F + 'forecaster.py:_estimate_err_distr')])
p('C21', 'Scenario reduction conserves probability and respects the node layout',
  'Reducing a scenario set yields a tree with the requested number of nodes per step whose leaf probabilities are those of the '
  'scenarios merged into them.',
  ['inputs'], 'every scenario matrix, probability vector and layout', 'Tests use a few random matrices.',
  [F + 'scenred.py', F + 'tree_builders.py'], [('backward reduction', F + 'scenred.py:scenred')])
p('C26', 'Metrics equal their definitions',
  'Every error metric and score equals its published definition, per step and aggregated.',
  ['inputs'], 'every forecast/target pair', 'Tests check a few values.',
  [F + 'metrics.py'], [('metric functions', F + 'metrics.py')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
