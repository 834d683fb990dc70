"""C08: Holt-Winters streams: batching, checkpoints and gaps do not change forecasts."""
import copy
import pickle

import numpy as np
import pandas as pd

from ..gen import same, require, rng, series, probe
from .. import child

PROP = 'C08'
RT, AT = 1e-9, 1e-9


def prepare():
    child.start()
    from pyforecaster.forecasting_models.holtwinters import HoltWinters
    x = frame(np.random.default_rng(0), 120, 0)
    HoltWinters(periods=[24, 48], target_name='y', n_sa=2, optimize_hyperpars=False).fit(x).predict(x.iloc[:3])


def frame(r, n, n_cov, start='2021-03-01'):
    idx = pd.date_range(start, periods=n, freq='1h')
    d = {'y': series(r, n)}
    for k in range(n_cov):
        d['c{}'.format(k)] = r.standard_normal(n)
    x = pd.DataFrame(d, index=idx)
    cols = list(x.columns)
    return x[[cols[i] for i in r.permutation(len(cols))]]


def draw(sim, multi=False):
    kw = dict(periods=sim.pick([[24, 48], [6, 24], [24, 168], [1, 7], [12, 5]], 'periods'), target_name='y',
              n_sa=sim.pick([3, 1, 2, 6, 14], 'steps'))
    if multi:
        n = kw['n_sa']
        kw.update(optimize_hyperpars=False, optimize_submodels_hyperpars=False)
        cuts = sorted({n} | {1 + sim.choose(n, 'submodel') for _ in range(2)})
        if sim.chance(0.7, 'own horizons'):
            kw['models_periods'] = np.array(cuts)
        k = len(cuts) if 'models_periods' in kw else n
        kw.update(alphas=[0.05 + 0.07 * i for i in range(k)], gammas_1=[0.05 + 0.03 * i for i in range(k)],
                  gammas_2=[0.2 - 0.01 * i for i in range(k)])
    else:
        kw.update(alpha=sim.pick([0.2, 0.05, 0.5, 0.9], 'alpha'), beta=sim.pick([0, 0.05], 'beta'),
                  gamma_1=sim.pick([0.1, 0.0, 0.6], 'gamma_1'), gamma_2=sim.pick([0.1, 0.3, 0.0], 'gamma_2'),
                  optimize_hyperpars=False, verbose=False)
        if sim.chance(0.15, 'constraints'):
            kw['constraints'] = [-2.0, 2.0]
    if sim.chance(0.3, 'own quantiles'):
        kw['q_vect'] = np.array([0.1, 0.5, 0.9])
    return kw


def make(kw, multi=False):
    from pyforecaster.forecasting_models.holtwinters import HoltWinters, HoltWintersMulti
    return (HoltWintersMulti if multi else HoltWinters)(**copy.deepcopy(kw))


def remote_feed(blob, batches, quantiles):
    m = pickle.loads(blob)
    out = [(m.predict_quantiles(b) if q else m.predict(b)) for b, q in zip(batches, quantiles)]
    return out, pickle.dumps(m)


def whole(m, x, quantiles):
    m = copy.deepcopy(m)
    return m.predict_quantiles(x, dataframe=False) if quantiles else m.predict(x)


def as_array(q):
    return q.values.reshape(len(q), -1) if isinstance(q, pd.DataFrame) else np.asarray(q).reshape(len(q), -1)


def stream(sim, multi=False):
    r = rng(sim)
    kw = draw(sim, multi)
    n_fit, n = 24 * 12, sim.pick([60, 30, 100], 'rows')
    n_cov = sim.pick([0, 0, 1, 2], 'covariates')
    x = frame(r, n_fit + n, n_cov)
    dormant = sim.chance(0.2, 'dormant')
    if dormant:                # a meter that only reads zero until some point of the stream
        x.iloc[:n_fit + sim.pick([0, 3, 12, 29], 'wakes at'), x.columns.get_loc('y')] = 0.0
    gaps = sim.chance(0.35, 'gaps')
    live = x.iloc[n_fit:].copy()
    if gaps:
        for _ in range(sim.between(1, 4, 'gaps')):
            i = sim.choose(n, 'gap at')
            live.iloc[i:i + sim.pick([1, 2, 5, 20], 'gap length'), live.columns.get_loc('y')] = np.nan
        sim.fault('missing-observations')
    sim.describe('HoltWinters{} {} covariates={} rows={} gaps={}{}'.format('Multi' if multi else '', kw, n_cov, n, gaps, ' dormant' if dormant else ''))
    with sim.quiet():
        m = make(kw, multi).fit(x.iloc[:n_fit].copy())
        spare = make(kw, multi).fit(x.iloc[:n_fit].copy()) if not multi else None
        start = copy.deepcopy(m)
        want = whole(start, live, False)
        want_q = whole(start, live, True)
    cols = list(want.columns)
    i = 0
    saved = None               # (row, kind, state)
    if dormant and not multi and sim.chance(0.6, 'saved asleep'):
        saved = (0, 'states', m.get_states())
    steps = 0
    while i < n and steps < 60:
        steps += 1
        op = sim.pick(['feed', 'feed', 'feed', 'checkpoint', 'restore', 'move', 'remote'], 'op')
        if op == 'checkpoint':
            kind = sim.pick(['pickle', 'copy', 'states'], 'kind') if not multi else sim.pick(['pickle', 'copy'], 'kind')
            state = {'pickle': lambda: pickle.dumps(m), 'copy': lambda: copy.deepcopy(m), 'states': lambda: m.get_states()}[kind]()
            saved = (i, kind, state)
            sim.describe('checkpoint ({}) before row {}'.format(kind, i))
        elif op == 'restore' and saved is not None:
            i, kind, state = saved
            sim.fault('crash-restore')
            sim.describe('crash, continue from the {} checkpoint at row {}'.format(kind, i))
            if kind == 'pickle':
                m = pickle.loads(state)
            elif kind == 'copy':
                m = copy.deepcopy(state)
            elif sim.chance(0.5, 'same object'):
                m.set_states(**state)
            else:
                m = copy.deepcopy(spare)
                if sim.chance(0.5, 'used before'):
                    m.predict(live.iloc[sim.choose(n, 'from'):])
                m.set_states(**state)
        elif op == 'move':
            m = pickle.loads(pickle.dumps(m)) if sim.chance(0.5, 'pickle') else copy.deepcopy(m)
            sim.describe('moved to a copy before row {}'.format(i))
        elif op == 'remote' and sim.chance(0.15, 'other process'):
            k = min(sim.pick([1, 3, 7], 'batch'), n - i)
            sim.fault('restart-other-process')
            sim.describe('another process takes over at row {} for {} rows'.format(i, k))
            (got,), blob = child.other().call('sim.props.c08:remote_feed', pickle.dumps(m), [live.iloc[i:i + k]], [False])
            m = pickle.loads(blob)
            judge(sim, got, want.iloc[i:i + k], i, k)
            i += k
        else:
            k = min(sim.pick([1, 1, 2, 3, 7, 24, 60], 'batch'), n - i)
            quant = sim.chance(0.2, 'quantiles')
            b = live.iloc[i:i + k].copy()
            if quant:
                got = m.predict_quantiles(b, dataframe=sim.chance(0.5, 'frame') and not multi)
                same(sim, 'batching-changes-forecasts', as_array(got), want_q[i:i + k].reshape(k, -1),
                     'quantiles of rows {}..{}'.format(i, i + k), rtol=RT, atol=AT)
            else:
                got = m.predict(b)
                require(sim, 'wrong-labels', list(got.columns) == cols and got.index.equals(b.index), 'labels of the forecasts')
                judge(sim, got, want.iloc[i:i + k], i, k)
            sim.ops += 1
            i += k


def judge(sim, got, want, i, k):
    same(sim, 'batching-changes-forecasts', np.asarray(got), np.asarray(want), 'forecasts of rows {}..{}'.format(i, i + k),
         rtol=RT, atol=AT)


def streams(sim):
    stream(sim, False)


def multi_streams(sim):
    stream(sim, True)


def gaps(sim):
    """a gap acts as if the forecaster's own one-step-ahead forecast had been observed"""
    r = rng(sim)
    kw = draw(sim)
    kw.pop('constraints', None)
    n_fit, n = 24 * 12, sim.pick([40, 80], 'rows')
    n_cov = sim.pick([0, 0, 2], 'covariates')
    x = frame(r, n_fit + n, n_cov)
    live = x.iloc[n_fit:].copy()
    col = live.columns.get_loc('y')
    pattern = sim.pick(['single', 'block', 'scattered', 'leading', 'all', 'season'], 'pattern')
    miss = np.zeros(n, dtype=bool)
    if pattern == 'single':
        miss[sim.choose(n, 'at')] = True
    elif pattern == 'block':
        i = sim.choose(n, 'at')
        miss[i:i + sim.between(2, 12, 'length')] = True
    elif pattern == 'scattered':
        miss[r.random(n) < 0.3] = True
    elif pattern == 'leading':
        miss[:sim.between(1, 6, 'length')] = True
    elif pattern == 'season':
        miss[:30] = True
    else:
        miss[:] = True
    sim.fault('missing-observations')
    live.iloc[miss, col] = np.nan
    sim.describe('gaps {} {} covariates={} missing {} of {}'.format(pattern, kw, n_cov, int(miss.sum()), n))
    with sim.quiet():
        m = make(kw).fit(x.iloc[:n_fit].copy())
        ref = copy.deepcopy(m)
    # reference: row by row, gaps filled with the level, trend and seasonality the forecaster itself reports
    filled = live.copy()
    want = []
    with sim.quiet():
        for i in range(n):
            if miss[i]:
                s = ref.get_states()
                own = float(s['a']) + float(s['b']) + float(np.ravel(s['s1'])[0]) + float(np.ravel(s['s2'])[0])
                filled.iloc[i, col] = own
            want.append(ref.predict(filled.iloc[[i]]).values[0])
    want = np.vstack(want)
    if n_cov == 0:
        # without covariates that is the first column of the forecast before
        for i in np.flatnonzero(miss):
            if i:
                same(sim, 'gap-changes-forecasts', filled.iloc[i, col], want[i - 1, 0], 'own forecast of row {}'.format(i),
                     rtol=1e-7, atol=1e-7)
    got = []
    i = 0
    while i < n:
        k = min(sim.pick([1, 4, 13, 80], 'batch'), n - i)
        got.append(m.predict(live.iloc[i:i + k].copy()).values)
        sim.ops += 1
        i += k
    got = np.vstack(got)
    judged = np.ones(n, dtype=bool) if n_cov == 0 else ~miss
    require(sim, 'not-finite', bool(np.isfinite(got[judged]).all()), 'forecasts are not finite after a gap')
    same(sim, 'gap-changes-forecasts', got[judged], want[judged], 'forecasts with gaps', rtol=1e-7, atol=1e-7)
    st = m.get_states()
    for k in ('a', 'b', 's1', 's2'):
        require(sim, 'not-finite', bool(np.isfinite(np.asarray(st[k], dtype=float)).all()), 'state {}'.format(k))


SCENARIOS = [('streams', streams, 4), ('gaps', gaps, 3), ('multi_streams', multi_streams, 2)]
