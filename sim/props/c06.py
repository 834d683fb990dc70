"""C06: tuning returns the best of the candidates drawn, whatever the schedule of the trials."""
import contextlib
import copy
import functools

import numpy as np
import pandas as pd

from ..core import Discard, Violation
from ..gen import cores, same, require, rng, series, probe, no_pools
from ..compare import fingerprint, changed

PROP = 'C06'
KEYS = {'hw': ['alpha', 'gamma_1', 'gamma_2'], 'fourier': ['alpha', 'omega', 'n_harmonics'],
        'kalman': ['alpha', 'omega', 'n_harmonics', 'r', 'q']}


def prepare():
    import matplotlib
    matplotlib.use('Agg')
    import pyforecaster.forecasting_models.holtwinters as H
    from pyforecaster.forecasting_models.fast_adaptive_models import FK
    x = frame(np.random.default_rng(0), 60, ['y'], 0)
    H.HoltWinters(periods=[6, 12], target_name='y', optimize_hyperpars=False).fit(x).predict(x.iloc[:3])
    FK(target_name='y', m=8, optimize_hyperpars=False, verbose=False).fit(x).predict(x.iloc[:3])


def classes():
    from pyforecaster.forecasting_models import fast_adaptive_models as M, holtwinters as H
    return {'hw': H.HoltWinters, 'fourier': M.Fourier_es, 'kalman': M.FK, 'multi': M.FK_multi, 'hwmulti': H.HoltWintersMulti}


def frame(r, n, targets, n_cov):
    d = {t: series(r, n, period=int(r.integers(6, 14))) for t in targets}
    for k in range(n_cov):
        d['c{}'.format(k)] = r.standard_normal(n)
    x = pd.DataFrame(d, index=pd.date_range('2021-03-01', periods=n, freq='1h'))
    cols = list(x.columns)
    return x[[cols[i] for i in r.permutation(len(cols))]]


@contextlib.contextmanager
def candidates(fam):
    """every untuned forecaster of the class that is fitted while the context is open is a trial"""
    C, keys, seen = classes()[fam], KEYS[fam], []
    had, fit = 'fit' in C.__dict__, C.fit

    @functools.wraps(fit)
    def wrapped(self, *a, **k):
        if not self.optimize_hyperpars:
            seen.append(tuple(float(getattr(self, p)) for p in keys))
        return fit(self, *a, **k)
    C.fit = wrapped
    try:
        yield seen
    finally:
        if had:
            C.fit = fit
        else:
            del C.fit


def score(fam, settings, x, cand, targets):
    """the error of one candidate, on its own"""
    C = classes()[fam]
    n = int(0.7 * len(x))
    errs = []
    for t in targets:
        cols = [c for c in x.columns if c == t or c not in targets]
        kw = dict(copy.deepcopy(settings), **dict(zip(KEYS[fam], cand)))
        kw.update(target_name=t, targets_names=None, optimize_hyperpars=False, verbose=False)
        m = C(**kw)
        tr, te = x[cols].iloc[:n].copy(), x[cols].iloc[n:].copy()
        m.fit(tr, tr)
        yhat = m.predict(te).values
        y = te[t].values
        h = settings.get('n_sa', 1)
        truth = np.stack([y[1 + k:len(y) - h + 1 + k] for k in range(h)], axis=1)
        errs.append(np.mean((yhat[:len(truth)] - truth) ** 2))
    return float(np.mean(errs))


def judge(sim, fam, settings, x, seen, n_trials, chosen, targets):
    cands = sorted(set(seen))
    require(sim, 'trials-lost', len(cands) >= n_trials, '{} different candidates were tried instead of {}'.format(len(cands), n_trials))
    with sim.quiet():
        scores = np.array([score(fam, settings, x, c, targets) for c in cands])
    if not np.isfinite(scores).all():
        raise Discard('a candidate has no finite error')
    best = scores.min()
    chosen = tuple(float(v) for v in chosen)
    require(sim, 'not-a-candidate', chosen in cands, 'the tuned values {} are none of the candidates tried'.format(chosen))
    got = scores[cands.index(chosen)]
    probe(sim, 'candidates rescored', len(cands))
    require(sim, 'not-the-best-trial', got <= best * (1 + 1e-9) + 1e-12,
            '{} with error {:.6g} was chosen, {} has {:.6g} ({} candidates)'.format(
                dict(zip(KEYS[fam], chosen)), got, dict(zip(KEYS[fam], cands[int(scores.argmin())])), best, len(cands)))


def draw(sim):
    fam = sim.pick(['hw', 'fourier', 'kalman'], 'family')
    targets = ['y'] if sim.chance(0.5, 'one target') else ['y', 'z'][:2] + (['w'] if sim.chance(0.3, 'third target') else [])
    s = dict(n_sa=sim.pick([2, 1, 3], 'steps'), verbose=sim.chance(0.1, 'verbose'))
    s['target_name'] = sim.pick(targets, 'target')
    if len(targets) > 1:
        s['targets_names'] = list(targets)
    elif sim.chance(0.3, 'named'):
        s['targets_names'] = ['y']
    if fam == 'hw':
        s['periods'] = sim.pick([[6, 12], [4, 8], [1, 5]], 'periods')
        if sim.chance(0.4, 'beta'):
            s['beta'] = 0.05
        if sim.chance(0.2, 'constraints'):
            s['constraints'] = [-3.0, 3.0]
    else:
        s['m'] = sim.pick([12, 8, 9], 'm')
        if sim.chance(0.4, 'periodicity'):
            s['periodicity'] = 4
    if sim.chance(0.3, 'own quantiles'):
        s['q_vect'] = np.array([0.1, 0.5, 0.9])
    if sim.chance(0.3, 'own val_ratio'):
        s['val_ratio'] = 0.6
    return fam, s, targets


def plain(v):
    return v.tolist() if isinstance(v, np.ndarray) else v


def fits(sim):
    """fitting with the tuning switched on"""
    cores(sim)
    r = rng(sim)
    fam, s, targets = draw(sim)
    budget = sim.pick([4, 2, 1, 7, 3], 'budget')
    s.update(optimization_budget=budget, optimize_hyperpars=True)
    x = frame(r, sim.pick([60, 80], 'rows'), targets, sim.pick([0, 0, 1], 'covariates'))
    before = {k: plain(v) for k, v in copy.deepcopy(s).items()}
    sim.describe('{} {} budget={} columns={}'.format(fam, s, budget, list(x.columns)))
    np.random.seed(sim.subseed('global') % 2 ** 31)
    m = classes()[fam](**s)
    if sim.chance(0.3, 'settings changed after construction'):
        if fam == 'hw':
            s['beta'] = before['beta'] = 0.1
            m.set_params(beta=0.1)
        else:
            s['verbose'] = before['verbose'] = False
            m.set_params(verbose=False)
    settings = {k: plain(v) for k, v in copy.deepcopy(m.get_params()).items()}
    with candidates(fam) as seen:
        m.fit(x.copy())
    sim.ops += budget
    no_pools(sim, 'after the tuning')
    after = {k: plain(v) for k, v in m.get_params().items()}
    for k, v in settings.items():
        if k not in KEYS[fam] + ['optimize_hyperpars']:
            same(sim, 'setting-changed', after[k], v, 'setting {}'.format(k))
    for k, v in before.items():
        if k != 'optimize_hyperpars':
            same(sim, 'caller-dict-changed', plain(s[k]), v, 'the value of {} handed over'.format(k))
    judge(sim, fam, s, x, seen, budget, [after[k] for k in KEYS[fam]], targets)
    # the fitted forecaster is the one with the chosen candidate
    with sim.quiet():
        kw = dict(copy.deepcopy(s), **{k: after[k] for k in KEYS[fam]})
        kw.update(optimize_hyperpars=False)
        ref = classes()[fam](**kw).fit(x.copy())
        same(sim, 'not-the-tuned-model', m.predict(x.iloc[-20:].copy()).values, ref.predict(x.iloc[-20:].copy()).values,
             'forecasts of the tuned forecaster', rtol=1e-9, atol=1e-9)


def direct(sim):
    """the tuning function on its own, in parallel or not, with ranges of the caller"""
    from pyforecaster.forecasting_models.holtwinters import tune_hyperpars
    cores(sim)
    r = rng(sim)
    fam, s, targets = draw(sim)
    n_trials = sim.pick([3, 1, 5, 2, 12], 'trials')
    lims = {'alpha': [0.05, 0.95]}
    if fam == 'hw':
        lims.update(gamma_1=[0, 1], gamma_2=sim.pick([[0, 1], [0.2, 0.3]], 'range'))
    else:
        lims.update(omega=[0.05, 0.95])
        if sim.chance(0.5, 'harmonics tuned'):
            lims['n_harmonics'] = [1, 4]
        if fam == 'kalman' and sim.chance(0.5, 'noise tuned'):
            lims.update(r=[0.001, 0.8], q=[0.001, 0.8])
    named = len(targets) > 1 or 'targets_names' in s
    x = frame(r, sim.pick([60, 80], 'rows'), targets, sim.pick([0, 0, 1], 'covariates'))
    parallel, ret = sim.chance(0.7, 'parallel'), sim.chance(0.4, 'return model')
    s['optimize_hyperpars'] = sim.chance(0.5, 'flag')
    s0 = {k: plain(v) for k, v in copy.deepcopy(s).items()}
    lims0 = copy.deepcopy(lims)
    fp = fingerprint(x)
    sim.describe('{} {} trials={} parallel={} return_model={} ranges={} columns={}'.format(
        fam, s, n_trials, parallel, ret, lims, list(x.columns)))
    np.random.seed(sim.subseed('global') % 2 ** 31)
    with candidates(fam) as seen:
        out = tune_hyperpars(x, classes()[fam], hyperpars=lims, n_trials=n_trials, return_model=ret, parallel=parallel,
                             model_init_kwargs=s)
    sim.ops += n_trials
    no_pools(sim, 'after the tuning')
    same(sim, 'caller-dict-changed', {k: plain(v) for k, v in s.items()}, s0, 'the keyword arguments')
    same(sim, 'caller-dict-changed', lims, lims0, 'the ranges')
    require(sim, 'input-changed', not changed(x, fp), 'the data')
    pars = out.get_params() if ret else out
    if ret:
        seen = seen[:-1]
        require(sim, 'setting-changed', out.target_name == s['target_name'], 'the target of the model returned')
    for k in s0:
        if k not in ('optimize_hyperpars', 'targets_names') and k not in lims:
            same(sim, 'setting-changed', plain(pars[k]), s0[k], 'setting {}'.format(k))
    for k, (lo, hi) in lims.items():
        for c in seen:
            v = c[KEYS[fam].index(k)]
            require(sim, 'outside-range', lo <= v <= hi, '{}={} outside {}'.format(k, v, (lo, hi)))
    judge(sim, fam, s, x, seen, n_trials, [pars[k] for k in KEYS[fam]], targets)
    if ret:
        with sim.quiet():
            kw = dict(copy.deepcopy(s), **{k: pars[k] for k in KEYS[fam]})
            kw.update(optimize_hyperpars=False)
            ref = classes()[fam](**kw).fit(x.copy())
            same(sim, 'not-the-tuned-model', out.predict(x.iloc[-20:].copy()).values, ref.predict(x.iloc[-20:].copy()).values,
                 'forecasts of the model returned', rtol=1e-9, atol=1e-9)


def combined(sim):
    """models of models: every submodel is tuned by itself and keeps the best of its own trials"""
    cores(sim)
    r = rng(sim)
    fam = sim.pick(['multi', 'hwmulti'], 'family')
    n_sa = sim.pick([2, 3], 'steps')
    budget = sim.pick([3, 2], 'budget')
    s = dict(target_name='y', n_sa=n_sa, optimization_budget=budget, verbose=False, optimize_submodels_hyperpars=True,
             optimize_hyperpars=sim.chance(0.5, 'tune first'))
    if fam == 'multi':
        base = sim.pick(['fourier', 'kalman'], 'base')
        s.update(m=sim.pick([12, 9], 'm'), n_predictors=2, base_predictor=classes()[base])
    else:
        base = 'hw'
        s.update(periods=[4, 8])
        if sim.chance(0.5, 'horizons'):
            s['models_periods'] = np.array([1, n_sa])
    x = frame(r, 70, ['y'], sim.pick([0, 1], 'covariates'))
    sim.describe('{} of {} {}'.format(fam, base, {k: v for k, v in s.items() if k != 'base_predictor'}))
    np.random.seed(sim.subseed('global') % 2 ** 31)
    m = classes()[fam](**s)
    with candidates(base) as seen:
        m.fit(x.copy())
    sim.ops += 1
    no_pools(sim, 'after the tuning')
    subs = m.models
    n_sub = 2 if (fam == 'multi' or 'models_periods' in s) else n_sa
    require(sim, 'submodels-lost', len(subs) == n_sub, '{} submodels instead of {}'.format(len(subs), n_sub))
    # the trials of one submodel come in one block
    for k, sub in enumerate(subs):
        mine = tuple(float(getattr(sub, p)) for p in KEYS[base])
        if mine not in seen:
            raise Violation('not-a-candidate', 'submodel {} uses {}, which was never tried'.format(k, mine))
        first = seen.index(mine)
        start = first // budget * budget
        block = seen[start:start + budget]
        require(sim, 'trials-lost', len(set(block)) == budget and mine in block, 'submodel {}: {} trials'.format(k, len(set(block))))
        settings = dict(target_name='y', n_sa=sub.n_sa)
        if base == 'hw':
            settings['periods'] = s['periods']
        else:
            settings['m'] = sub.m
        judge(sim, base, settings, x, block, budget, mine, ['y'])


SCENARIOS = [('fits', fits, 4), ('direct', direct, 4), ('combined', combined, 1)]
