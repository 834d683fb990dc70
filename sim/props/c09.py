"""C09: adaptive Fourier / Kalman forecasters: predictions are reads, causal, and survive restarts."""
import copy
import pickle

import numpy as np
import pandas as pd

from .. import child, seams
from ..gen import same, require, rng, series, mean_quantum
from ..core import Violation

PROP = 'C09'
RT, AT = 1e-9, 1e-9


def prepare():
    child.start()
    from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK
    x = frame(np.random.default_rng(0), 90, 0)
    for c in (Fourier_es, FK):
        c(target_name='y', n_sa=2, m=12, optimize_hyperpars=False, verbose=False).fit(x).predict(x.iloc[:3])


def frame(r, n, n_cov, start='2021-03-01'):
    d = {'y': series(r, n)}
    for k in range(n_cov):
        d['c{}'.format(k)] = r.standard_normal(n)
    x = pd.DataFrame(d, index=pd.date_range(start, periods=n, freq='1h'))
    cols = list(x.columns)
    return x[[cols[i] for i in r.permutation(len(cols))]]


def draw(sim):
    fam = sim.pick(['fourier', 'kalman', 'multi'], 'family')
    n_sa = sim.pick([3, 1, 2, 6], 'steps')
    m = sim.pick([24, 12, 30, 7], 'm')
    kw = dict(target_name='y', n_sa=n_sa, m=m, optimize_hyperpars=False, verbose=False)
    if sim.chance(0.4, 'periodicity'):
        kw['periodicity'] = sim.pick([n_sa, 6, m - 1], 'periodicity value')
    if sim.chance(0.3, 'own quantiles'):
        kw['q_vect'] = np.array([0.1, 0.5, 0.9])
    if fam == 'multi':
        kw.update(n_predictors=sim.pick([2, 4, 3], 'predictors'), optimize_submodels_hyperpars=False,
                  base=sim.pick(['fourier', 'kalman'], 'base'))
        kw['r'] = sim.pick([0.1, 0.5], 'r')
    else:
        kw.update(alpha=sim.pick([0.8, 0.3], 'alpha'), omega=sim.pick([0.99, 0.5], 'omega'),
                  n_harmonics=sim.pick([3, 1, 40], 'harmonics'))
        if fam == 'kalman':
            kw.update(r=sim.pick([0.1, 0.6], 'r'), q=sim.pick([0.1, 0.01], 'q'))
    return fam, kw


def make(fam, kw):
    from pyforecaster.forecasting_models import fast_adaptive_models as M
    kw = copy.deepcopy(kw)
    base = kw.pop('base', None)
    if base:
        kw['base_predictor'] = {'fourier': M.Fourier_es, 'kalman': M.FK}[base]
    return {'fourier': M.Fourier_es, 'kalman': M.FK, 'multi': M.FK_multi}[fam](**kw)


def ask(m, what, x):
    """a copy of the rows goes in, plain arrays and labels come out"""
    x = x.copy()
    if what == 'point':
        p = m.predict(x)
        return p.values, list(p.columns), p.index
    if what == 'quantiles':
        q = m.predict_quantiles(x, dataframe=False)
        return np.asarray(q), None, None
    q = m.predict_quantiles(x, dataframe=True)
    return q.values, list(q.columns), q.index


def footprint(m):
    """pickled size, after one round trip (which settles how strings and dtypes are shared)"""
    return len(pickle.dumps(pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(m))))))


def remote(blob, what, x):
    m = pickle.loads(blob)
    return ask(m, what, x), pickle.dumps(m)


def draw_stretch(sim, n):
    i = sim.choose(n - 3, 'from')
    return i, min(n, i + 1 + sim.pick([30, 1, 5, 80, 2, 200], 'rows'))


def training_rows(sim, kw):
    # shorter than, equal to and longer than the window
    return sim.pick([120, 90, 26, 60], 'training rows') + kw['m'] * sim.choose(2, 'more')


def fitted(sim, fam, kw, x, n_fit):
    with sim.quiet():
        return make(fam, kw).fit(x.iloc[:n_fit].copy())


def histories(sim):
    r = rng(sim)
    fam, kw = draw(sim)
    n_fit = training_rows(sim, kw)
    n = n_fit + 120
    x = frame(r, n, sim.pick([0, 0, 1], 'covariates'))
    sim.describe('{} {} training rows={}'.format(fam, kw, n_fit))
    if sim.chance(0.5, 'buffer'):
        # the caller's buffer is used for other things after the fit
        buf = x.iloc[:n_fit].copy()
        with sim.quiet():
            m = make(fam, kw).fit(buf)
            ref = fitted(sim, fam, kw, x, n_fit)
        buf.iloc[:, :] = -1000.0
        buf.values[:] = -1000.0
        sim.fault('training-buffer-overwritten')
    else:
        m = fitted(sim, fam, kw, x, n_fit)
        ref = fitted(sim, fam, kw, x, n_fit)
    blob = pickle.dumps(ref)
    size = footprint(m)
    saved = [pickle.dumps(m)]
    memo = {}
    stretches = [draw_stretch(sim, n) for _ in range(sim.between(1, 4, 'stretches'))]
    if sim.chance(0.5, 'live'):
        stretches.append((n_fit, n))
    for _ in range(sim.between(4, 14, 'calls')):
        op = sim.pick(['ask', 'ask', 'ask', 'prefix', 'copy', 'pickle', 'crash', 'remote'], 'op')
        s = sim.pick(stretches, 'stretch')
        what = sim.pick(['point', 'quantiles', 'frame'], 'what')
        if op == 'copy':
            m = copy.deepcopy(m)
            sim.describe('continue on a deep copy')
            continue
        if op == 'pickle':
            saved.append(pickle.dumps(m))
            m = pickle.loads(saved[-1])
            sim.describe('continue on a pickled copy')
            continue
        if op == 'crash':
            m = pickle.loads(sim.pick(saved, 'checkpoint'))
            sim.fault('crash-restore')
            sim.describe('crash, continue from a checkpoint')
            continue
        key = (what,) + s
        if key not in memo:
            # the answer of a forecaster that has just been fitted
            with sim.quiet():
                memo[key] = ask(pickle.loads(blob) if sim.chance(0.5, 'reference from pickle') else
                                copy.deepcopy(ref), what, x.iloc[s[0]:s[1]])
        want = memo[key]
        sim.ops += 1
        if op == 'prefix':
            k = 1 + sim.choose(s[1] - s[0], 'prefix')
            got = ask(m, what, x.iloc[s[0]:s[0] + k])
            same(sim, 'not-causal', got[0], want[0][:k], '{} of the first {} of {} rows'.format(what, k, s[1] - s[0]),
                 rtol=RT, atol=AT)
            continue
        if op == 'remote' and sim.chance(0.3, 'other process'):
            sim.fault('restart-other-process')
            got, b = child.other().call('sim.props.c09:remote', pickle.dumps(m), what, x.iloc[s[0]:s[1]])
            m = pickle.loads(b)
        else:
            got = ask(m, what, x.iloc[s[0]:s[1]])
        sim.describe('{} of rows {}..{}'.format(what, *s))
        same(sim, 'prediction-not-repeatable', got, want, '{} of rows {}..{}'.format(what, *s), rtol=RT, atol=AT)
    now = footprint(m)
    require(sim, 'forecaster-grows', now <= size + 64,
            'the pickled forecaster grew from {} to {} bytes'.format(size, now))


def futures(sim):
    """rows to come do not change the forecasts issued before"""
    r = rng(sim)
    fam, kw = draw(sim)
    n_fit = training_rows(sim, kw)
    n = n_fit + 100
    x = frame(r, n, sim.pick([0, 1], 'covariates'))
    m = fitted(sim, fam, kw, x, n_fit)
    i, j = draw_stretch(sim, n)
    k = 1 + sim.choose(j - i, 'known rows')
    other = x.iloc[i:j].copy()
    how = sim.pick(['noise', 'missing', 'zeros', 'spike'] if fam == 'fourier' else ['noise', 'zeros', 'spike'], 'what comes')
    v = {'noise': r.standard_normal((j - i - k, x.shape[1])), 'missing': np.nan, 'zeros': 0.0, 'spike': 1e6}[how]
    if fam == 'fourier' and sim.chance(0.4, 'sensor outage'):
        # the last known observations are missing
        gap = sim.between(1, min(k, 3), 'missing observations')
        x = x.copy()
        x.iloc[i + k - gap:i + k, x.columns.get_loc('y')] = np.nan
        other = x.iloc[i:j].copy()
        sim.fault('missing-observation')
    other.iloc[k:, :] = v
    what = sim.pick(['point', 'quantiles'], 'what')
    sim.describe('{} {} training rows={}: rows {}..{}, {} after {}'.format(fam, kw, n_fit, i, j, how, k))
    with sim.quiet():
        want = ask(copy.deepcopy(m), what, x.iloc[i:j])
    if k < j - i:
        sim.fault('future-rows-changed')
    got = ask(m, what, other)
    sim.ops += 1
    same(sim, 'not-causal', got[0][:k], want[0][:k], 'forecasts of {} rows with another future'.format(k), rtol=RT, atol=AT)
    got = ask(m, what, x.iloc[i:j])
    same(sim, 'prediction-not-repeatable', got[0], want[0], 'after predicting another future', rtol=RT, atol=AT)


def threads(sim):
    """the forecaster is shared by concurrent threads"""
    r = rng(sim)
    fam, kw = draw(sim)
    n_fit = training_rows(sim, kw)
    n = n_fit + 60
    x = frame(r, n, 0)
    m = fitted(sim, fam, kw, x, n_fit)
    size = footprint(m)
    asks = [(sim.pick(['point', 'quantiles', 'frame'], 'what'), draw_stretch(sim, n)) for _ in range(sim.between(2, 4, 'threads'))]
    asks = [(w, (s[0], min(s[1], s[0] + 40))) for w, s in asks]
    sim.describe('{} {} shared by {}'.format(fam, kw, asks))
    with sim.quiet():
        want = [ask(copy.deepcopy(m), w, x.iloc[s[0]:s[1]]) for w, s in asks]
    got = seams.concurrently([lambda w=w, s=s: ask(m, w, x.iloc[s[0]:s[1]]) for w, s in asks],
                             mean_quantum=mean_quantum(sim))
    for (w, s), (g, e), t in zip(asks, got, want):
        sim.ops += 1
        if e is not None:
            raise Violation('prediction-not-repeatable', '{} of rows {}..{} from a thread failed: {!r}'.format(w, s[0], s[1], e))
        same(sim, 'prediction-not-repeatable', g, t, '{} of rows {}..{} from a thread'.format(w, *s), rtol=RT, atol=AT)
    require(sim, 'forecaster-grows', footprint(m) <= size + 64, 'the pickled forecaster grew')


SCENARIOS = [('histories', histories, 4), ('futures', futures, 2), ('threads', threads, 2)]
