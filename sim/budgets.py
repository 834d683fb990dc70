"""Per property: exploration budget per tier, and what the evidence says about the components."""
_Q = dict(seconds=45)
_T = dict(seconds=600)


def _b(q=45, t=600, **kw):
    return {'quick': dict(seconds=q, **kw), 'thorough': dict(seconds=t, **kw)}


BUDGET = {'C01': _b(30), 'C02': _b(45), 'C03': _b(40), 'C12': _b(40), 'C04': _b(45), 'C05': _b(45), 'C08': _b(42), 'C09': _b(40),
          'C06': _b(45), 'C10': _b(50), 'C13': _b(40), 'C11': _b(45), 'C07': _b(45), 'C14': _b(45), 'C15': _b(50), 'C16': _b(45),
          'C17': _b(35), 'C18': _b(35), 'C19': _b(45)}

_POOLS = ['multiprocessing.Pool, concurrent.futures executors and ray (worker processes, their scheduling, death and random '
          'state) are simulated; tasks cross a real pickle/cloudpickle boundary']
_THREADS = ['the thread scheduler: real threads are parked and released one at a time at source-line granularity']
_CLOCK = ['wall and monotonic clocks read by the package']
_ASSUME = ['Pre-emption happens between source lines (optionally between bytecodes) of the package; library code (numpy, '
           'pandas, LightGBM, scikit-learn, JAX) runs atomically.',
           'Worker processes share no memory with their parent beyond pickled arguments.']
_CHILD = ['restarts into another process use a real second process with another string-hash seed']
ABOUT = {
    'C19': dict(real=['pyforecaster.forecasting_models.neural_models (PICNN, PIQCNNSigmoid, RecStablePICNN): fit, optimize, save, load',
                      'JAX, flax, optax, scikit-learn', 'caller threads (real threads, scheduled)', 'pickle, copy, the file system'],
                stub=_THREADS, assumptions=_ASSUME[:1] + ['Answers are compared to the precision of single floats.']),
    'C18': dict(real=['pyforecaster.formatter', 'pandas, numpy', 'formatter threads (real threads, scheduled)', 'pickle, copy',
                      'a real second process'],
                stub=_POOLS + _THREADS, assumptions=_ASSUME + ['Regular sampling.']),
    'C17': dict(real=['pyforecaster.formatter, forecaster', 'pandas, numpy, scikit-learn', 'formatter and caller threads (real threads, scheduled)',
                      'pickle, copy', 'a real second process'],
                stub=_THREADS, assumptions=_ASSUME[:1] + ['Forecasts handed back have the rows of the features they belong to.']),
    'C16': dict(real=['pyforecaster.reconciliation, forecaster', 'LightGBM, scikit-learn, pandas, numpy (one thread each)',
                      'caller threads (real threads, scheduled)', 'pickle, copy', 'a real second process'],
                stub=_THREADS, assumptions=_ASSUME[:1] + ['Scenarios draw from numpy\'s global random state, which the simulator seeds.']),
    'C02': dict(real=['pyforecaster.big_data_utils, formatter, scenarios_generator, tree_builders, copula, gradientboosters, randomforests, '
                      'holtwinters, fast_adaptive_models', 'LightGBM, quantile-forest, pandas, numpy, JAX, numba (one thread each)',
                      'formatter and forest threads (real threads, scheduled)', 'pickle, cloudpickle'],
                stub=_POOLS + _THREADS, assumptions=_ASSUME + ['A ray task whose worker dies is run again up to three times, as ray does by default.']),
    'C15': dict(real=['pyforecaster.forecaster, forecasting_models (all of them), formatter, trainer, metrics, scenarios_generator, '
                      'tree_builders, big_data_utils, reconciliation', 'LightGBM, quantile-forest, scikit-learn, JAX, optuna',
                      'formatter, forest and caller threads (real threads, scheduled)'],
                stub=_POOLS + _THREADS, assumptions=_ASSUME + ['What is handed over is looked at between calls, not while they run.']),
    'C14': dict(real=['pyforecaster.forecaster, forecasting_models (linear, boosting, forest, persistence), scenarios_generator, copula, '
                      'tree_builders, scenred', 'numpy, scipy, numba, JAX, LightGBM, quantile-forest (one thread each)',
                      'threads that draw random numbers meanwhile, forest threads (real threads, scheduled)', 'a real second process'],
                stub=_POOLS + _THREADS + _CLOCK, assumptions=_ASSUME + ['Trees fitted beforehand, and the rows the multi-step part of the '
                      'hybrid model is trained on, are drawn while fitting where no seed can be given: only what follows is judged.']),
    'C07': dict(real=['pyforecaster.trainer, metrics, forecaster, gradientboosters, randomforests', 'optuna (sampler scripted), scikit-learn, '
                      'LightGBM, quantile-forest (one thread each)', 'searching threads, forest prediction threads (real threads, scheduled)'],
                stub=_POOLS + _THREADS, assumptions=_ASSUME + ['scikit-learn runs the folds one after the other (n_jobs unset).']),
    'C11': dict(real=['pyforecaster.forecaster, forecasting_models (linear, boosting, forest, persistence, brutal, neural), '
                      'scenarios_generator, copula', 'LightGBM, quantile-forest, scikit-learn, JAX (one thread each)',
                      'threads that fit side by side, forest threads (real threads, scheduled)', 'pickle, copy'],
                stub=_POOLS + _THREADS, assumptions=_ASSUME),
    'C13': dict(real=['pyforecaster.forecasting_models.neural_models (NN, FFNN, LSTMNN, PICNN, PIQCNN): fit, save, load, forecasts',
                      'JAX, flax, scikit-learn', 'pickle', 'Python file buffering and tempfile', 'a real second process',
                      'saving and loading threads (real threads, scheduled)'],
                stub=['the file system below the checkpoint path: page cache, journal and platter are simulated in memory '
                      '(sim/simfs.py), every system call is a fault point'] + _THREADS,
                assumptions=['rename is atomic; directory operations reach the disk in order; fsync of a file or directory commits '
                             'the journal; data not synced may survive in any part; an fsync that failed has lost the data.',
                             'Files are written through Python (open, os, tempfile, shutil, pathlib).']),
    'C10': dict(real=['pyforecaster.forecaster, forecasting_models (linear, boosting, forest, persistence, random features, neural), '
                      'scenarios_generator, copula, tree_builders', 'LightGBM, quantile-forest, scikit-learn, JAX (one thread each)',
                      'caller threads and forest prediction threads (real threads, scheduled)', 'pickle, copy'],
                stub=_POOLS + _THREADS, assumptions=_ASSUME),
    'C06': dict(real=['pyforecaster.forecasting_models.holtwinters, fast_adaptive_models', 'pickle'],
                stub=_POOLS, assumptions=_ASSUME[1:]),
    'C09': dict(real=['pyforecaster.forecasting_models.fast_adaptive_models', 'pickle, copy', 'a real second process',
                      'caller threads (real threads, scheduled)'],
                stub=_THREADS, assumptions=_ASSUME[:1]),
    'C08': dict(real=['pyforecaster.forecasting_models.holtwinters, statsmodels_wrapper', 'pickle, copy', 'a real second process'],
                stub=[], assumptions=['The forecaster restarts from its last checkpoint and is fed the observations since.']),
    'C05': dict(real=['pyforecaster.forecasting_models.gradientboosters, randomforests, forecaster, formatter', 'LightGBM, quantile-forest (one thread each)', 'the forest prediction threads (real threads, scheduled)', 'pickle'],
                stub=_POOLS + _THREADS, assumptions=_ASSUME),
    'C04': dict(real=['pyforecaster.scenarios_generator, tree_builders, scenred, copula, forecaster, big_data_utils', 'numpy/scipy/networkx/numba/JAX', 'pickle, cloudpickle'],
                stub=_POOLS, assumptions=_ASSUME),
    'C12': dict(real=['pyforecaster.formatter', 'pandas/numpy, holidays, long_weekends', 'pickle', 'a real second process'],
                stub=_POOLS, assumptions=['Regular sampling; a formatter serves windows of the sampling it was configured for.']),
    'C01': dict(real=['pyforecaster.big_data_utils', 'pandas/numpy', 'pickle, cloudpickle'], stub=_POOLS, assumptions=_ASSUME),
    'C03': dict(real=['pyforecaster.formatter, big_data_utils', 'pandas/numpy', 'the transformer threads (real threads, scheduled)'],
                stub=_POOLS + _THREADS, assumptions=_ASSUME),
}
NOTE = {
    'C19': 'Seeded histories of fits, interrupts at drawn lines, optimisations that fail, refits, copies, saves and loads, and interleaved '
           'threads; convexity is probed along random segments and optimisations are repeated by a network that never optimised anything.',
    'C18': 'Seeded histories of windows with corrected, late and lost measurements, failures at drawn lines, restarts, parallel and '
           'global transformations; every column is worked out again from its metadata, folds are judged by corrupting test measurements.',
    'C17': 'Seeded histories of transformed windows, denormalised forecasts (drawn rows, orders and quantile levels), failed calls, copies, '
           'crashes, moves into a second process and interleaved threads; compared with a formatter that does not normalise and the '
           'expressions worked out by the harness.',
    'C16': 'Seeded histories of questions about drawn rows in drawn arrival orders between failed calls, copies, crashes, restarts in a '
           'second process, other reconcilers and interleaved threads, and fits after interrupted fits; answers are compared with base '
           'forecasters fitted one by one and a projection computed by the harness.',
    'C02': 'Seeded runs of every parallel operation under one or two injected failures (a task raising before, during or after its work, '
           'worker death, workers that cannot start) in drawn schedules; after each call pools, tasks and ray sessions are looked for, and '
           'the call repeated without the failure is compared with one that never failed.',
    'C15': 'Seeded histories of fits, forecasts, transformations, tunings, searches and reconciliations over frames in several memory '
           'layouts (views of bigger frames included), interrupted at drawn lines, by failing or dying workers, or shared by interleaved '
           'threads; fingerprints of everything handed over are compared after every call.',
    'C14': 'Seeded histories in which foreign random draws and reseedings, clock jumps, core changes, drawing threads at line '
           'granularity, copies, pickles and restarts in a second process come between equal questions and equal fits; answers, '
           'the rows selected and refitted forests have to be equal, and other seeds have to give others.',
    'C07': 'Seeded searches with scripted trials (each sets a drawn subset of the parameters), drawn folds in every accepted form, both '
           'kinds of cross-validation, pruned trials, interrupts at drawn lines and failing workers; each completed trial is repeated '
           'alone on a newly built model, and searches in interleaved threads share one forecaster.',
    'C11': 'Seeded histories of fits on other data, columns, categories and horizons, interrupted at drawn lines or by failing and '
           'dying workers, with predictions, copies and pickles in between; the last fit is compared with a newly built forecaster. '
           'Forecasters fitted side by side in interleaved threads are compared with each alone.',
    'C13': 'Seeded histories of saves on a simulated disk with kills, power losses, I/O errors, short writes, full disks, pickling '
           'failures and interrupts at every system call and line; after each the path has to hold an acceptable complete checkpoint, '
           'judged by the forecasts of what loads from it, here and in a second process.',
    'C10': 'Seeded interleavings (line level, sometimes bytecode) of point, quantile, scenario and tree predictions sharing forecaster '
           'and frames, histories of calls, copies and row splits; each answer is compared with the one given alone.',
    'C06': 'Seeded trial budgets, worker counts and completion orders; the candidates tried are recorded and every one is scored again '
           'on its own; the tuned values have to be those with the smallest error and every other setting unchanged.',
    'C09': 'Seeded histories of predictions on overlapping stretches and prefixes, futures rewritten, copies, pickles, crashes and '
           'moves into a second real process, sharing threads, compared with what a just-fitted forecaster answers.',
    'C08': 'Seeded histories of batches, checkpoints (states, copies, pickles), crashes with restore, moves into a second real '
           'process and missing observations, compared with one uninterrupted run and with the own-forecast reference.',
    'C05': 'Seeded completion orders of the per-step workers and interleavings of the prediction threads, core and worker counts, splits '
           'between single and multi-step models and refits; compared with the sequential forecaster, steps identified by their level.',
    'C04': 'Seeded batches, node layouts, tree types, core counts and completion orders; every tree is checked for shape and '
           'probabilities and compared with the sequential one and with the one predicted for the row alone.',
    'C12': 'Seeded serving histories (window lengths, orders, late and corrected rows) with restarts by pickling, copying and '
           'moving to a second real process with another hash seed, compared with the batch features.',
    'C03': 'Seeded interleavings of the transformer threads at line (sometimes bytecode) granularity and of the ray workers '
           'of global-form datasets, compared with the sequential pass, metadata included.',
    'C01': 'Seeded runs over frames, axes, backends, core counts and completion orders, compared with one in-order pass.',
}
