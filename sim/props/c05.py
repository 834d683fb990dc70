"""C05: per-step models fitted and queried in parallel equal the sequential ones."""
import copy
import pickle

import numpy as np

from ..gen import cores, same, require, rng, mean_quantum, probe
from .. import seams, models

PROP = 'C05'
RT = 1e-9


def prepare():
    models.warm()


def check_levels(sim, case, yhat, what, quantiles=False):
    """column i forecasts step i: the steps are far apart"""
    if case.fkind == 'norm':
        return
    v = np.asarray(yhat, dtype=float)
    n = v.shape[0]
    v = v.reshape(n, case.steps, -1)
    for i in range(case.steps):
        d = np.abs(np.median(v[:, i, :]) - models.LEVEL * i)
        require(sim, 'wrong-step', d < 45, '{}: column {} lies around {:.1f}, step {} around {:.1f}'.format(
            what, i, np.median(v[:, i, :]), i, models.LEVEL * i))


def ask(sim, case, par, seq, x, what):
    kind = sim.pick(['predict', 'quantiles', 'quantiles-array', 'period'], 'call')
    if kind == 'period' and case.fkind is None:
        kind = 'predict'
    kw = {}
    if kind == 'period':
        kw['period'] = '24h'
    if kind.startswith('quantiles'):
        if case.family == 'qrf' and sim.chance(0.4, 'asked quantiles'):
            kw['quantiles'] = sim.pick([[0.2, 0.8], [0.5], [0.05, 0.5, 0.95]], 'q')
        kw['dataframe'] = kind == 'quantiles'

        def call(m):
            return m.predict_quantiles(x, **kw)
    else:
        def call(m):
            return m.predict(x, **kw)
    got = call(par)
    sim.ops += 1
    with sim.quiet():
        want = call(seq)
    same(sim, 'parallel-differs', got, want, '{} {}'.format(what, kind), rtol=RT, atol=1e-9)
    if kind == 'quantiles-array':
        n_q = len(kw.get('quantiles', seq.q_vect))
        require(sim, 'wrong-shape', got.shape == (len(x), case.steps, n_q),
                '{}: quantile array of shape {} instead of {}'.format(what, got.shape, (len(x), case.steps, n_q)))
        with sim.quiet():
            df = seq.predict_quantiles(x, **dict(kw, dataframe=True))
        same(sim, 'array-differs', got.reshape(len(x), -1), df.values, 'quantiles as an array and as a frame')
    check_levels(sim, case, got, '{} {}'.format(what, kind))


def steps(sim):
    cores(sim)
    r = rng(sim)
    case = models.draw(sim, ['hybrid', 'qrf', 'hybrid', 'qrf', 'aware'])
    n = sim.pick([180, 130], 'rows')
    with sim.quiet():
        x, y = models.data(case, r, n)
        xt, _ = models.data(case, r, 30, start='2021-06-01 05:00')
    sim.describe(repr(case))
    q = mean_quantum(sim)
    seed = sim.subseed('global') % 2 ** 31
    par = models.build(case, parallel=True)
    np.random.seed(seed)
    with seams.threaded(q):
        par.fit(x.copy(), y.copy())
    sim.ops += 1
    with sim.quiet():
        seq = models.build(case, parallel=False)
        np.random.seed(seed)
        seq.fit(x.copy(), y.copy())
    same(sim, 'parallel-differs', par.err_distr, seq.err_distr, 'error distributions', rtol=RT, atol=1e-9)
    for k in range(sim.between(1, 4, 'calls')):
        if sim.chance(0.2, 'restart'):
            par = pickle.loads(pickle.dumps(par)) if sim.chance(0.5, 'pickle') else copy.deepcopy(par)
        par.parallel = sim.chance(0.75, 'parallel call')
        m = sim.pick([len(xt), 1, 2, 7], 'rows asked')
        i = sim.choose(len(xt) - m + 1, 'first row')
        sim.describe('call {}: rows {}..{} parallel={}'.format(k, i, i + m, par.parallel))
        with seams.threaded(q, opcodes=sim.chance(0.05, 'bytecode')):
            ask(sim, case, par, seq, xt.iloc[i:i + m].copy(), 'call {}'.format(k))


def refits(sim):
    """one forecaster fitted again and again, parallel or not, against a sequential newcomer"""
    cores(sim)
    r = rng(sim)
    case = models.draw(sim, ['hybrid', 'qrf', 'aware'])
    sim.describe(repr(case))
    q = mean_quantum(sim)
    par = models.build(case, parallel=True)
    for k in range(sim.between(2, 3, 'fits')):
        with sim.quiet():
            x, y = models.data(case, r, 130, start='2021-0{}-01'.format(k + 1))
            xt, _ = models.data(case, r, 30, start='2021-06-01')
        par.parallel = sim.chance(0.6, 'parallel fit')
        seed = sim.subseed('global') % 2 ** 31
        sim.describe('fit {} parallel={}'.format(k, par.parallel))
        np.random.seed(seed)
        with seams.threaded(q):
            par.fit(x.copy(), y.copy())
        sim.ops += 1
        with sim.quiet():
            seq = models.build(case, parallel=False)
            np.random.seed(seed)
            seq.fit(x.copy(), y.copy())
        par.parallel = sim.chance(0.6, 'parallel call')
        with seams.threaded(q):
            ask(sim, case, par, seq, xt, 'after fit {}'.format(k))


def horizons(sim):
    """Holt-Winters, one model per horizon: column i is what the model in charge of step i forecasts on its own"""
    from pyforecaster.forecasting_models.holtwinters import HoltWinters, HoltWintersMulti
    from . import c06
    cores(sim)
    r = rng(sim)
    n_sa = sim.pick([3, 2, 4, 5, 1], 'steps')
    ends = [k for k in range(1, n_sa) if sim.chance(0.6, 'model ends at {}'.format(k))] + [n_sa]
    if len(ends) == n_sa and sim.chance(0.5, 'default horizons'):
        mp = None
    else:
        mp = sim.pick([list, np.array], 'type')(ends)
    if mp is None:
        ends = list(range(1, n_sa + 1))
    pars = [{k: float(r.uniform(0.02, 0.6)) for k in ('alpha', 'gamma_1', 'gamma_2')} for _ in ends]
    kw = dict(periods=sim.pick([[6, 12], [4, 8]], 'periods'), target_name='y', q_vect=np.array([0.1, 0.5, 0.9]))
    x = c06.frame(r, 110, ['y'], sim.choose(2, 'covariates'))
    train, live = x.iloc[:70], x.iloc[70:]
    sim.describe('horizons of {} steps: models end at {} ({})'.format(n_sa, ends, 'default' if mp is None else type(mp).__name__))
    m = HoltWintersMulti(n_sa=n_sa, models_periods=mp, optimize_hyperpars=False, optimize_submodels_hyperpars=False,
                         alphas=[p['alpha'] for p in pars], gammas_1=[p['gamma_1'] for p in pars],
                         gammas_2=[p['gamma_2'] for p in pars], **kw)
    m.fit(train.copy())
    sim.ops += 1
    with sim.quiet():
        own = []
        for e, p in zip(ends, pars):
            w = HoltWinters(n_sa=int(e), optimize_hyperpars=False, **p, **kw)
            w.fit(train.copy())
            w.reinit(train['y'].values)
            own.append(w)
    of = [min(j for j, e in enumerate(ends) if i < e) for i in range(n_sa)]
    for i in range(n_sa):
        same(sim, 'wrong-step', m.err_distr[i], own[of[i]].err_distr[i], 'error distribution of step {}'.format(i), rtol=RT, atol=1e-9)
    at = 0
    for k in range(sim.between(1, 3, 'batches')):
        n = sim.between(1, 12, 'rows')
        if sim.chance(0.3, 'restart'):
            m = pickle.loads(pickle.dumps(m)) if sim.chance(0.5, 'pickle') else copy.deepcopy(m)
        b = live.iloc[at:at + n]
        at += n
        q = sim.chance(0.3, 'quantiles')
        got = m.predict_quantiles(b.copy(), dataframe=False) if q else m.predict(b.copy()).values
        sim.ops += 1
        with sim.quiet():
            want = [w.predict(b.copy()).values for w in own]
        require(sim, 'wrong-shape', got.shape[:2] == (len(b), n_sa), 'shape {}'.format(got.shape))
        for i in range(n_sa):
            w = want[of[i]][:, i]
            if q:
                w = w[:, None] + m.err_distr[i][None]
            same(sim, 'wrong-step', got[:, i], w, 'batch {}: step {}'.format(k, i), rtol=RT, atol=1e-9)


SCENARIOS = [('horizons', horizons, 1), ('steps', steps, 4), ('refits', refits, 1)]
