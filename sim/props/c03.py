"""C03: parallel feature generation equals sequential feature generation."""
import numpy as np
import pandas as pd

from ..gen import cores, same, require, rng, mean_quantum, attempt, probe
from ..core import Discard
from .. import seams, fmt

PROP = 'C03'
RT, AT = 1e-9, 1e-9


def prepare():
    import pyforecaster.formatter   # noqa


def enough_rows(spec, x, **kw):
    """some row survives the transformations"""
    kw = dict(kw, time_features=False, holidays=False)
    if len(fmt.build(spec)._transform(x.copy(), parallel=False, **kw)[0]) == 0:
        raise Discard('window too short')


def compare_formatters(sim, fp, fs, xp, spec, targets):
    mp, ms = fmt.metadata(fp, targets), fmt.metadata(fs, targets)
    same(sim, 'wrong-metadata', mp, ms, 'feature metadata')
    incl = bool(spec['targets']) and targets
    same(sim, 'wrong-metadata', fp.get_time_lims(include_target=incl), fs.get_time_lims(include_target=incl), 'time limits')
    if incl and len(xp):
        n_t = min(len(t.metadata) for t in fs.target_transformers)
        k = sim.choose(n_t, 'pruned step')
        method = sim.pick(['periodic', 'up_to', 'all'], 'pruning')
        kw = dict(method=method, period='6h', tol_period='1h', keep_last_n_lags=sim.choose(3, 'keep lags'))
        a, ea = attempt(lambda: fp.prune_dataset_at_stepahead(xp, k, [], **kw))
        b, eb = attempt(lambda: fs.prune_dataset_at_stepahead(xp, k, [], **kw))
        require(sim, 'wrong-pruning', (ea is None) == (eb is None), 'pruning: {!r} against {!r}'.format(ea, eb))
        if ea is None:
            same(sim, 'wrong-pruning', list(a.columns), list(b.columns), 'columns kept at step {}'.format(k))


def threads(sim):
    cores(sim)
    r = rng(sim)
    dt = sim.pick(fmt.FREQS, 'sampling')
    cols = ['a', 'b', 'c', 'd'][:sim.between(2, 4, 'columns')]
    spec = fmt.draw_spec(sim, cols, dt, max_tr=6, causal=False)
    tz = sim.pick([None, 'Europe/Zurich'], 'tz')
    n = sim.between(40, 80, 'rows')
    x = fmt.signals(r, n, cols, dt, tz=tz, start=sim.pick(['2021-03-01', '2021-03-27 20:00', '2021-12-30'], 'start'))
    n_par = sim.pick([None, 1, 2, 3, 8], 'n_parallel')
    kw = dict(time_features=sim.chance(0.5, 'time features'), holidays=sim.chance(0.2, 'holidays'),
              return_target=not sim.chance(0.25, 'no target'))
    q = mean_quantum(sim)
    sim.describe('threads {} quantum {} {} {} {} rows tz={}'.format(n_par, q, kw, fmt.describe(spec), n, tz))
    with sim.quiet():
        enough_rows(spec, x, **kw)
    fp = fmt.build(spec, n_parallel=n_par)
    with seams.threaded(q, opcodes=sim.chance(0.1, 'bytecode')):
        for rep in range(sim.between(1, 2, 'transforms')):
            xp, yp = fp._transform(x, parallel=True, **kw)
            sim.ops += 1
    with sim.quiet():
        fs = fmt.build(spec)
        xs, ys = fs._transform(x.copy(), parallel=False, **kw)
    same(sim, 'wrong-features', list(xp.columns), list(xs.columns), 'columns')
    same(sim, 'wrong-features', xp, xs, 'x', rtol=RT, atol=AT)
    same(sim, 'wrong-target', yp, ys, 'target', rtol=RT, atol=AT)
    compare_formatters(sim, fp, fs, xp, spec, kw['return_target'])


def shared_formatter(sim):
    """several frames of the same sampling go through one formatter in turn, with threads and without"""
    cores(sim)
    r = rng(sim)
    dt = sim.pick(fmt.FREQS, 'sampling')
    cols = ['a', 'b', 'c']
    spec = fmt.draw_spec(sim, cols, dt, max_tr=5, causal=False)
    q = mean_quantum(sim)
    fp = fmt.build(spec, n_parallel=sim.pick([None, 2, 3], 'n_parallel'))
    sim.describe('one formatter, quantum {} {}'.format(q, fmt.describe(spec)))
    for k in range(sim.between(2, 4, 'frames')):
        n = sim.between(40, 70, 'rows')
        x = fmt.signals(r, n, cols, dt, start=['2021-03-01', '2021-05-01', '2020-12-31', '2022-02-27'][k])
        par = sim.chance(0.6, 'parallel')
        sim.describe('frame {} {} rows parallel={}'.format(k, n, par))
        with seams.threaded(q):
            xp, yp = fp._transform(x, parallel=par, time_features=False)
        sim.ops += 1
        with sim.quiet():
            fs = fmt.build(spec)
            xs, ys = fs._transform(x.copy(), parallel=False, time_features=False)
        same(sim, 'wrong-features', xp, xs, 'x of frame {}'.format(k), rtol=RT, atol=AT)
        same(sim, 'wrong-target', yp, ys, 'target of frame {}'.format(k), rtol=RT, atol=AT)
        compare_formatters(sim, fp, fs, xp, spec, True)


def global_spec(sim, dt, shared):
    """transformers over the shared columns and over the stacked target"""
    cols = shared + ['target']
    spec = fmt.draw_spec(sim, cols, dt, max_tr=3, causal=False, target_col='target')
    have = {n for t in spec['transformers'] for n in t['names']}
    for c in cols:
        if c not in have:
            spec['transformers'].append(dict(names=[c], functions=None, agg_freq=None, lags=[1, 2], relative_lags=False,
                                             agg_bins=None, nested=True))
    return spec


def global_form(sim):
    cores(sim)
    r = rng(sim)
    dt = sim.pick(fmt.FREQS, 'sampling')
    n_sig = sim.between(1, 7, 'signals')
    shared = ['sa', 'sb', 'sc'][:sim.between(0, 3, 'shared columns')]
    sig = ['s{}'.format(i) for i in range(n_sig)]
    spec = global_spec(sim, dt, shared)
    n = sim.between(40, 60, 'rows')
    tz = sim.pick([None, 'Europe/Zurich'], 'tz')
    start = sim.pick(['2021-03-01', '2021-12-30'], 'start')
    layout = sim.pick(['flat', 'flat', 'multi'], 'layout')
    if layout == 'flat':
        cols = sig + shared
        cols = [cols[i] for i in r.permutation(len(cols))]
        x = fmt.signals(r, n, cols, dt, tz=tz, start=start, ints=sim.chance(0.3, 'integer signals'))
    else:
        flat = fmt.signals(r, n, sig + shared, dt, tz=tz, start=start)
        parts = [flat[[s]].rename(columns={s: 'power'}) for s in sig]
        keys = list(sig)
        if shared:
            parts.append(flat[shared])
            keys.append('shared')
        x = pd.concat(parts, axis=1, keys=keys)
    kw = dict(time_features=sim.chance(0.5, 'time features'), holidays=sim.chance(0.2, 'holidays'),
              return_target=not sim.chance(0.2, 'no target'), reduce_memory=not sim.chance(0.5, 'keep dtypes'))
    corr = sim.chance(0.25, 'corr_reorder')
    with_dt = sim.chance(0.4, 'explicit dt')
    if corr:
        kw['return_target'] = True
    if sim.chance(0.2, 'worker restarts'):
        sim.armed = [seams.Fault('worker-death', sim.choose(n_sig, 'death-task'), times=sim.between(1, 3, 'deaths'))]
    sim.describe('{} signals, {} {} corr_reorder={} {}'.format(n_sig, layout, kw, corr, fmt.describe(spec)))
    with sim.quiet():
        f0 = fmt.build(spec)
        for df in f0.global_form_preprocess(x.copy())[:1]:
            enough_rows(spec, df, return_target=kw['return_target'])
    fp = fmt.build(spec, with_dt=with_dt)
    own = sim.chance(0.3, 'ray session open')
    if own:
        import ray
        ray.init()
    xp, yp = fp.transform(x.copy(), global_form=True, parallel=True, corr_reorder=corr, **kw)
    sim.armed = []
    sim.ops += 1
    with sim.quiet():
        fs = fmt.build(spec, with_dt=with_dt)
        xs, ys = fs.transform(x.copy(), global_form=True, parallel=False, corr_reorder=corr, **kw)
    require(sim, 'wrong-features', xs.shape[0] == yp.shape[0] or not kw['return_target'], 'rows of x and target')
    same(sim, 'wrong-features', list(xp.columns), list(xs.columns), 'columns')
    tol = 3e-6 if kw['reduce_memory'] else RT
    same(sim, 'wrong-order', list(xp['name']) if 'name' in xp.columns else 0, list(xs['name']) if 'name' in xs.columns else 0,
         'signal of each row')
    same(sim, 'wrong-features', xp, xs, 'x', rtol=tol, atol=tol)
    same(sim, 'wrong-target', yp, ys, 'target', rtol=tol, atol=tol)
    compare_formatters(sim, fp, fs, xp, spec, kw['return_target'])
    if corr:
        for a, b in zip(fp.transformers, fs.transformers):
            same(sim, 'wrong-metadata', {k: list(v) for k, v in a.reordered_cols_names_dict.items()},
                 {k: list(v) for k, v in b.reordered_cols_names_dict.items()}, 'order by correlation')


SCENARIOS = [('threads', threads, 4), ('shared_formatter', shared_formatter, 2), ('global_form', global_form, 4)]
