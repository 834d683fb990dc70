"""Forecasters to exercise: a case is plain data from which a forecaster and data for it can be built any number of times."""
import copy

import numpy as np
import pandas as pd

LEVEL = 100.0
SMALL_GB = dict(n_estimators=10, num_leaves=7, min_child_samples=5, learning_rate=0.35, n_jobs=1)


def quiet_jax():
    import os
    os.environ['JAX_PLATFORMS'] = 'cpu'
    os.environ['MPLBACKEND'] = 'Agg'
    # compiled programs are found again by their content
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.cache', 'jax')
    try:
        os.makedirs(here, exist_ok=True)
    except OSError:
        return
    os.environ.setdefault('JAX_COMPILATION_CACHE_DIR', here)
    os.environ.setdefault('JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS', '0')
    os.environ.setdefault('JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES', '0')


class Case:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return '{}({}) steps={} features={}{}{}'.format(
            self.family, ', '.join('{}={}'.format(k, v) for k, v in sorted(self.kw.items()) if k not in SMALL_GB),
            self.steps, self.n_feat, ' formatter={}'.format(self.fkind) if self.fkind else '',
            ' categorical' if self.cat else '')


NEURAL = ('ffnn', 'nn', 'lstm')


def tolerance(case):
    """relative and absolute tolerance of forecasts: networks work in single precision"""
    return (2e-4, 2e-3) if case.family in NEURAL else (1e-9, 1e-9)


def warm(neural=False):
    import pyforecaster
    if neural:
        quiet_jax()
        import pyforecaster.forecasting_models.neural_models.base_nn   # noqa
    import pyforecaster.forecasting_models.random_fourier_features   # noqa
    import pyforecaster.forecasting_models.gradientboosters   # noqa
    import pyforecaster.forecasting_models.randomforests   # noqa
    import pyforecaster.forecasting_models.benchmarks   # noqa
    import pyforecaster.forecaster   # noqa
    # numba compiles at first use
    x, y = data(Case(family='brutal', fkind=None, cat=False, n_feat=2, steps=2, kw={}), np.random.default_rng(0), 60)
    np.random.seed(0)
    pyforecaster.forecasting_models.random_fourier_features.BrutalRegressor(n_iter=2, n_bins=4, bootstrap_fraction=0.5).fit(x, y).predict(x)


def draw(sim, families, formatters=True, trees=False):
    fam = sim.pick(families, 'family')
    steps = sim.pick([3, 2, 4, 1, 5], 'steps')
    kw, fkind, cat = {}, None, False
    if fam in ('linear', 'qrf'):
        cat = sim.chance(0.2, 'categorical')
    if fam == 'linear':
        kw['kind'] = sim.pick(['linear', 'ridge'], 'kind')
    elif fam == 'lgb':
        kw.update(SMALL_GB, n_jobs_predict=1)
    elif fam in ('hybrid', 'aware'):
        kw.update(SMALL_GB)
        if formatters:
            fkind = sim.pick([None, 'plain', 'norm'], 'formatter')
        if fam == 'aware':
            kw['n_single'] = steps
        else:
            kw['n_single'] = sim.choose(steps + 1, 'n_single')
            kw['red_frac_multistep'] = sim.pick([1, 0.5, 0.1], 'red_frac')
        if fkind:
            kw.update(keep_last_n_lags=sim.pick([1, 3], 'keep lags'), tol_period=sim.pick(['1h', '2h'], 'tol'),
                      keep_last_seconds=sim.pick([0, 7200], 'keep seconds'))
    elif fam == 'qrf':
        kw.update(n_estimators=sim.pick([6, 12], 'trees'), n_jobs=None, random_state=sim.choose(5, 'forest seed'),
                  n_single=sim.choose(steps + 1, 'n_single'),
                  max_parallel_workers=sim.pick([8, 1, 2, 3], 'workers'))
        if formatters and not cat:
            fkind = sim.pick([None, None, 'plain'], 'formatter')
        if fkind:
            kw.update(keep_last_n_lags=1)
    elif fam in ('persistent', 'seasonal'):
        kw.update(target_col='f0', n_sa=steps, conditional_to_hour=sim.chance(0.5, 'conditional'))
        if fam == 'seasonal':
            kw['seasonality'] = max(sim.pick([24, 5, 1], 'seasonality'), steps)
    elif fam in ('rff', 'additive'):
        kw.update(dim_kernel=sim.pick([8, 4], 'kernel'), std_kernel=0.3)
        if fam == 'additive':
            kw['n_models'] = 2
    elif fam == 'brutal':
        return Case(family=fam, kw=dict(n_iter=sim.pick([3, 6], 'levels'), n_bins=4, bootstrap_fraction=0.5), steps=steps,
                    fkind=None, cat=False, n_feat=sim.pick([3, 2, 4], 'features'))
    elif fam in ('ffnn', 'nn', 'lstm'):
        kw.update(n_out=steps, n_layers=2, n_hidden_x=sim.pick([6, 10], 'neurons'), n_epochs=sim.pick([2, 1], 'epochs'),
                  batch_size=sim.pick([40, 60], 'batch size'), stats_step=sim.pick([50, 1], 'stats step'))
        if fam == 'ffnn':
            kw.update(skip_connection=sim.chance(0.3, 'skip'), split_heads=sim.chance(0.3, 'heads'))
        if fam == 'nn' and sim.chance(0.3, 'raw targets'):
            kw['normalize_target'] = False
    if sim.chance(0.3, 'validation share'):
        kw['val_ratio'] = sim.pick([0.3, 0.5], 'val_ratio')
    if fam in ('linear', 'lgb', 'qrf') and sim.chance(0.25, 'row cap'):
        kw.update(max_scengen_rows=sim.pick([60, 100], 'rows'), scengen_random_state=sim.pick([None, 3], 'cap seed'))
    if sim.chance(0.3, 'own quantiles'):
        kw['q_vect'] = np.array([0.1, 0.5, 0.9])
    return Case(family=fam, kw=kw, steps=steps, fkind=fkind, cat=cat, n_feat=sim.pick([3, 2, 4], 'features'))


def formatter(case):
    from pyforecaster.formatter import Formatter
    f = Formatter()
    f.add_transform(['p', 'q'], lags=np.array([1, 2, 3, 18, 19, 20, 21, 22, 23]))
    f.add_transform(['p'], ['mean'], agg_freq='3h', lags=[1, 4, 22, 23])
    if case.family == 'aware':
        f.add_transform(['force_off'], lags=-np.arange(1, 4))
    f.add_target_transform(['p'], lags=-np.arange(1, case.steps + 1))
    if case.fkind == 'norm':
        f.add_target_normalizer('p', 'mean', agg_freq='6h', name='mn')
        f.add_normalizing_fun('df[t] - df["mn"]', 'df[t] + df["mn"]')
    return f


def raw(r, n, start):
    idx = pd.date_range(start, periods=n, freq='1h')
    t = np.arange(n)
    return pd.DataFrame({'p': 5 * np.sin(2 * np.pi * t / 24) + r.standard_normal(n),
                         'q': r.standard_normal(n) + 3, 'force_off': (r.random(n) < 0.3) * 1.0}, index=idx)


def data(case, r, n=180, start='2021-03-01', steps=None, shift=0.0):
    """x, y; the target of step i lies around LEVEL*i"""
    steps = case.steps if steps is None else steps
    if case.fkind:
        f = formatter(case)
        x, y = f.transform(raw(r, n + 35, start), time_features=False)
        if case.fkind != 'norm':
            y = y + np.arange(steps) * LEVEL
        return x, y + shift
    idx = pd.date_range(start, periods=n, freq='1h')
    x = pd.DataFrame(r.standard_normal((n, case.n_feat)), index=idx, columns=['f{}'.format(i) for i in range(case.n_feat)])
    y = pd.DataFrame(x.values @ r.standard_normal((case.n_feat, steps)) * 3 + 0.5 * r.standard_normal((n, steps))
                     + np.arange(steps) * LEVEL + shift, index=idx, columns=['y{}'.format(i) for i in range(steps)])
    if case.cat:
        x['kind'] = np.array(['a', 'b', 'c'])[r.integers(0, 3, n)]
        if n >= 3:
            x.iloc[:3, x.columns.get_loc('kind')] = ['a', 'b', 'c']
        y = y + (x['kind'] == 'b').values[:, None] * 2.0
    return x, y


def cls(case):
    from pyforecaster import forecaster as F
    from pyforecaster.forecasting_models import gradientboosters as G, randomforests as R, benchmarks as B
    if case.family in ('rff', 'additive', 'brutal'):
        from pyforecaster.forecasting_models import random_fourier_features as RF
        return dict(rff=RF.RFFRegression, additive=RF.AdditiveRFFRegression, brutal=RF.BrutalRegressor)[case.family]
    if case.family in ('ffnn', 'nn', 'lstm'):
        from pyforecaster.forecasting_models.neural_models import base_nn as N
        return dict(ffnn=N.FFNN, nn=N.NN, lstm=N.LSTMNN)[case.family]
    return dict(linear=F.LinearForecaster, lgb=F.LGBForecaster, hybrid=G.LGBMHybrid, aware=G.LGBEnergyAware, qrf=R.QRF,
                persistent=B.Persistent, seasonal=B.SeasonalPersistent)[case.family]


def build(case, **over):
    kw = copy.deepcopy(case.kw)
    if case.fkind:
        f = formatter(case)
        f.transform(raw(np.random.default_rng(0), 80, '2021-01-01'), time_features=False)
        kw['formatter'] = f
    kw.update(over)
    return cls(case)(**kw)


def fit(m, case, x, y):
    if case.family in ('persistent', 'seasonal'):
        return m.fit(x)
    return m.fit(x, y)
