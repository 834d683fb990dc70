"""C07: every trial of a search is scored by a model of its own; stored replies are one per completed trial, aligned."""
import contextlib
import copy

import numpy as np
import pandas as pd

from .. import models, seams
from ..compare import changed, fingerprint
from ..core import Violation, HarnessError, Discard, SimAbort
from ..gen import cores, draw_fault, mean_quantum, no_pools, probe, require, rng, same

PROP = 'C07'


def prepare():
    import matplotlib
    matplotlib.use('Agg')
    models.warm()
    import optuna
    import pyforecaster.trainer   # noqa
    optuna.logging.set_verbosity(optuna.logging.CRITICAL)
    import sklearn.linear_model, sklearn.pipeline, sklearn.preprocessing, lightgbm   # noqa


# what can be searched: family -> parameter -> values
SPACE = {
    'linear': {'kind': ['ridge', 'linear']},
    'lgb': {'n_estimators': [3, 8, 20], 'learning_rate': [0.05, 0.3, 0.6], 'num_leaves': [3, 7, 15]},
    'hybrid': {'n_estimators': [3, 8, 20], 'learning_rate': [0.05, 0.3, 0.6], 'max_depth': [2, 5]},
    'qrf': {'n_estimators': [3, 6, 12], 'max_depth': [2, 4, None], 'min_samples_leaf': [1, 10], 'random_state': [0, 4]},
    'pipe': {'model__alpha': [0.01, 0.5, 5.0], 'model__l1_ratio': [0.1, 0.9]},
    'sklgb': {'n_estimators': [3, 8, 20], 'learning_rate': [0.05, 0.3, 0.6], 'num_leaves': [3, 7, 15]},
}


class Setup:
    pass


def draw(sim):
    s = Setup()
    s.family = fam = sim.pick(['linear', 'lgb', 'qrf', 'hybrid', 'pipe', 'sklgb'], 'family')
    kw = {}
    s.fkind = None
    steps = 1 if fam == 'sklgb' else sim.pick([2, 3, 1], 'steps')
    if fam in ('lgb', 'hybrid', 'sklgb'):
        kw.update(models.SMALL_GB)
    if fam == 'lgb':
        kw['n_jobs_predict'] = 1
    if fam == 'hybrid':
        kw.update(n_single=steps)
        s.fkind = sim.pick([None, 'norm', 'plain'], 'formatter')
        if s.fkind:
            kw.update(keep_last_n_lags=1)
    if fam == 'qrf':
        kw.update(n_estimators=6, random_state=1, n_single=sim.choose(steps + 1, 'n_single'), max_parallel_workers=2)
    if fam in ('hybrid', 'qrf'):
        kw['parallel'] = sim.chance(0.3, 'parallel')
    if fam in ('linear', 'lgb') and sim.chance(0.4, 'formatter forwarded'):
        s.fkind = 'norm'
    if fam == 'pipe':
        kw = dict(alpha=0.1, l1_ratio=0.5)
    elif fam == 'sklgb':
        kw['verbose'] = -1
    else:
        if sim.chance(0.3, 'own quantiles'):
            kw['q_vect'] = np.array([0.1, 0.5, 0.9])
        if sim.chance(0.3, 'validation share'):
            kw['val_ratio'] = 0.4
        if sim.chance(0.2, 'row cap'):
            kw.update(max_scengen_rows=40)
    s.kw = kw
    s.case = models.Case(family='linear' if fam in ('pipe', 'sklgb') else fam, kw=kw, steps=steps, fkind=s.fkind, cat=False, n_feat=3)
    s.steps = steps
    return s


def new(s, pars=None):
    """a model built from scratch with the parameters of a trial"""
    pars = dict(pars or {})
    if s.family == 'pipe':
        from sklearn.linear_model import ElasticNet
        from sklearn.pipeline import Pipeline
        from sklearn.preprocessing import StandardScaler
        kw = dict(s.kw, **{k.split('__')[1]: v for k, v in pars.items()})
        return Pipeline([('scale', StandardScaler()), ('model', ElasticNet(**kw))])
    if s.family == 'sklgb':
        from lightgbm import LGBMRegressor
        return LGBMRegressor(**dict(s.kw, **pars))
    return models.build(s.case, **pars)


def draw_data(sim, s):
    n = sim.pick([110, 140], 'rows')
    x, y = models.data(s.case, rng(sim), n)
    kind = 'times' if s.family not in ('pipe', 'sklgb') else sim.pick(['times', 'integers'], 'index')
    if kind == 'integers':
        # integer labels that are not the positions
        x.index = y.index = np.random.default_rng(sim.subseed('index')).permutation(len(x)) + 5
    return x, y


def draw_folds(sim, x):
    """(folds as handed over, how, list of (training positions, test positions))"""
    n = len(x)
    r = np.random.default_rng(sim.subseed('folds'))
    how = sim.pick(['masks', 'positions', 'number', 'generator of masks', 'generator of positions', 'mask series'], 'folds as')
    k = sim.pick([3, 2], 'folds')
    pos = []
    if how == 'number':
        edges = np.cumsum([0] + [n // k + (i < n % k) for i in range(k)])
        for i in range(k):
            te = np.arange(edges[i], edges[i + 1])
            pos.append((np.setdiff1d(np.arange(n), te), te))
    else:
        shape = sim.pick(['blocks', 'random', 'expanding'], 'shape')
        for i in range(k):
            if shape == 'blocks':
                a, b = n * i // k, n * (i + 1) // k
                te = np.arange(a, b)
                gap = sim.pick([0, 5], 'gap')
                tr = np.concatenate([np.arange(0, max(a - gap, 0)), np.arange(min(b + gap, n), n)])
            elif shape == 'random':
                mask = r.random(n) < 0.5
                tr, te = np.where(mask)[0], np.where(~mask)[0]
            else:
                a = n * (i + 1) // (k + 1)
                tr, te = np.arange(a), np.arange(a, min(n, a + n // (k + 1)))
            pos.append((tr, te))
    if how == 'number':
        folds = k
    elif 'mask' in how:
        def m(p):
            v = np.zeros(n, dtype=bool)
            v[p] = True
            return pd.Series(v, index=x.index) if how == 'mask series' else v
        folds = [(m(tr), m(te)) for tr, te in pos]
    else:
        folds = list(pos)
    if 'generator' in how:
        made = folds
        folds = (f for f in made)
    sim.describe('folds: {} as {}: {}'.format(k, how, [(len(a), len(b)) for a, b in pos]))
    return folds, how, pos


def draw_trials(sim, s, n):
    """the parameters of each trial; a trial need not set every parameter"""
    out = []
    for i in range(n):
        p = {}
        for k, vals in SPACE[s.family].items():
            if sim.chance(0.6, 'trial {} sets {}'.format(i, k)):
                p[k] = sim.pick(vals, 'value')
        out.append(p)
    return out


def spread(y_hat, y, agg_index=None, **kw):
    """a metric whose value depends on every row and on its place"""
    w = np.linspace(1, 2, len(y))
    d = np.abs(np.asarray(y_hat) - np.asarray(y)).reshape(len(y), -1)
    return pd.Series((d * w[:, None]).mean(axis=0))


def metric_of(name):
    from pyforecaster import metrics
    return spread if name == 'own' else getattr(metrics, name)


def draw_metric(sim, s):
    names = ['own', 'default', 'rmse'] + (['crps'] if s.family not in ('pipe', 'sklgb') else [])
    return sim.pick(names, 'metric')


def score_alone(s, name, m, x_te, y_te):
    f = metric_of('nmae' if name == 'default' else name)
    kw = {}
    if name == 'crps':
        y_hat = m.predict_quantiles(x_te)
        kw['alphas'] = m.q_vect
    else:
        y_hat = m.predict(x_te)
        y_hat = pd.DataFrame(np.asarray(y_hat).reshape(len(x_te), -1), index=y_te.index, columns=y_te.columns)
    v = f(y_hat, y_te, agg_index=np.zeros(y_te.shape[1]), **kw)
    return float(np.mean(np.asarray(v.mean())))


class Oracle:
    """trials repeated on their own"""
    def __init__(self, s, x, y, pos, metric):
        self.s, self.x, self.y, self.pos, self.metric, self.known = s, x, y, pos, metric, {}

    def __call__(self, pars, fold):
        key = (repr(sorted(pars.items())), fold)
        if key not in self.known:
            tr, te = self.pos[fold]
            m = new(self.s, pars)
            if 'parallel' in self.s.kw:
                m.parallel = False
            m.fit(self.x.iloc[tr].copy(), self.y.iloc[tr].copy())
            x_te, y_te = self.x.iloc[te].copy(), self.y.iloc[te].copy()
            y_hat = m.predict(x_te)
            self.known[key] = (score_alone(self.s, self.metric, m, x_te, y_te), np.asarray(y_hat))
        return self.known[key]


TOL = dict(rtol=1e-8, atol=1e-9)


def close(a, b):
    return np.allclose(a, b, rtol=1e-8, atol=1e-9)


def check_reply(sim, reply, pars, oracle, cv_type, what, fold=None):
    """the forecasts stored for a trial: its own, on the test rows of its fold"""
    k = len(oracle.pos)
    if cv_type == 'full':
        require(sim, 'reply-incomplete', isinstance(reply, dict) and len(reply) == k, '{}: {} folds stored instead of {}'.format(
            what, len(reply) if hasattr(reply, '__len__') else reply, k))
        for i in range(k):
            got = reply['fold_{}'.format(i)]
            aligned(sim, got, oracle, i, '{}, fold {}'.format(what, i))
            same(sim, 'foreign-reply', np.asarray(got), oracle(pars, i)[1], '{}, forecasts stored for fold {}'.format(what, i), **TOL)
        return None
    fits = [i for i in range(k) if np.asarray(reply).shape == oracle(pars, i)[1].shape and close(np.asarray(reply), oracle(pars, i)[1])]
    if not fits:
        raise Violation('foreign-reply', '{}: the forecasts stored are those of none of the folds'.format(what))
    ok = [i for i in fits if not hasattr(reply, 'index') or list(reply.index) == list(oracle.x.index[oracle.pos[i][1]])]
    require(sim, 'reply-misaligned', ok, '{}: the forecasts stored do not carry the labels of the test rows'.format(what))
    return ok


def aligned(sim, got, oracle, i, what):
    te = oracle.pos[i][1]
    require(sim, 'reply-misaligned', len(got) == len(te), '{}: {} rows instead of {}'.format(what, len(got), len(te)))
    if hasattr(got, 'index'):
        require(sim, 'reply-misaligned', list(got.index) == list(oracle.x.index[te]), what + ': labels of other rows')


def check_value(sim, value, pars, oracle, cv_type, what, among=None):
    k = len(oracle.pos)
    want = [oracle(pars, i)[0] for i in range(k)]
    if cv_type == 'full':
        same(sim, 'score-differs', value, float(np.mean(want)), '{} ({}): score in the search and alone'.format(what, pars), **TOL)
        return
    want = want if among is None else [want[i] for i in among]
    require(sim, 'score-differs', any(close(value, w) for w in want), '{} ({}): the score {!r} is that of none of its folds alone {}'.format(
        what, pars, value, want))


def keep_all(storage, cv_results):
    storage.append({k: cv_results[k] for k in ('y_hat', 'y_te')})


class Search:
    """one call of the optimizer, with the trials scripted"""
    def __init__(self, s, x, y, folds, script, cv_type, metric, store, pruned=(), fault=None):
        self.__dict__.update(s=s, x=x, y=y, folds=folds, script=script, cv_type=cv_type, metric=metric, store=store, pruned=pruned,
                             fault=fault)
        self.finished = []

    def space(self, trial):
        import optuna
        if trial.number in self.pruned:
            raise optuna.TrialPruned()
        p = dict(self.script[trial.number])
        # optuna sees the values, too
        for k, v in p.items():
            trial.suggest_categorical('{}#{}'.format(k, trial.number), [v])
        return p

    def run(self, model):
        import optuna
        from pyforecaster.trainer import base_storage_fun, hyperpar_optimizer
        fun = {'none': None, 'base': base_storage_fun, 'all': keep_all}[self.store]
        kw = {} if self.metric == 'default' else {'metric': metric_of(self.metric)}

        def callback(study, trial):
            self.finished.append((trial.number, trial.state.name, trial.value))
        return hyperpar_optimizer(self.x, self.y, model, n_trials=len(self.script), cv=self.folds, param_space_fun=self.space,
                                  cv_type=self.cv_type, sampler=optuna.samplers.RandomSampler(seed=3), callbacks=[callback],
                                  storage_fun=fun, **kw)

    def check(self, sim, out, oracle):
        study, replies = out
        trials = study.get_trials(deepcopy=False)
        require(sim, 'trials-lost', [t.number for t in trials] == list(range(len(self.script))), '{} trials instead of {}'.format(
            len(trials), len(self.script)))
        done = [t for t in trials if t.state.name == 'COMPLETE']
        if self.store == 'none':
            require(sim, 'foreign-reply', not replies, 'replies stored that nobody asked for')
        else:
            require(sim, 'replies-lost', len(replies) == len(done), '{} replies for {} completed trials'.format(len(replies), len(done)))
        for k, t in enumerate(done):
            what = 'trial {}'.format(t.number)
            among = None
            pars = self.script[t.number]
            if self.store != 'none':
                rep = replies[k]
                if self.store == 'all':
                    y_te = rep['y_te']
                    if self.cv_type == 'full':
                        for i in range(len(oracle.pos)):
                            aligned(sim, y_te['fold_{}'.format(i)], oracle, i, what + ', targets stored')
                            same(sim, 'foreign-reply', np.asarray(y_te['fold_{}'.format(i)]), oracle.y.iloc[oracle.pos[i][1]].values,
                                 what + ', targets stored')
                    rep = rep['y_hat']
                among = check_reply(sim, rep, pars, oracle, self.cv_type, what)
                if self.store == 'all' and self.cv_type != 'full':
                    y_te = replies[k]['y_te']
                    ok = [i for i in among if list(y_te.index) == list(oracle.y.index[oracle.pos[i][1]])
                          and np.array_equal(y_te.values, oracle.y.iloc[oracle.pos[i][1]].values)]
                    require(sim, 'reply-misaligned', ok, what + ': the targets stored are not those of the test rows')
            check_value(sim, t.value, pars, oracle, self.cv_type, what, among)
            if self.cv_type == 'full':
                same(sim, 'score-differs', np.asarray(t.user_attrs['cv_test_scores']), [oracle(pars, i)[0] for i in range(len(oracle.pos))],
                     what + ', scores of the folds', **TOL)
        return done


def setup(sim):
    cores(sim)
    s = draw(sim)
    sim.describe('{} {}{}'.format(s.family, {k: v for k, v in s.kw.items() if k not in models.SMALL_GB}, ' formatter ' + s.fkind if s.fkind else ''))
    x, y = draw_data(sim, s)
    folds, how, pos = draw_folds(sim, x)
    metric = draw_metric(sim, s)
    cv_type = sim.pick(['full', 'random_fold'], 'cv')
    sim.describe('metric {}, cv_type {}'.format(metric, cv_type))
    return s, x, y, folds, how, pos, metric, cv_type


def search(sim):
    """a whole search, trials interrupted or not"""
    import optuna
    s, x, y, folds, how, pos, metric, cv_type = setup(sim)
    n = sim.between(2, 5, 'trials')
    script = draw_trials(sim, s, n)
    store = sim.pick(['base', 'all', 'none'], 'storage')
    pruned = {i for i in range(n) if sim.chance(0.1, 'pruned')}
    sim.describe('trials: {} pruned: {} storage: {}'.format(script, sorted(pruned), store))
    with sim.quiet():
        oracle = Oracle(s, x.copy(), y.copy(), pos, metric)
        model = new(s)
    np.random.seed(sim.subseed('global') % 2 ** 31)
    k = Search(s, x, y, folds, script, cv_type, metric, store, pruned)
    mode = sim.pick(['none', 'none', 'line', 'worker'] if s.kw.get('parallel') else ['none', 'none', 'line'], 'disturbance')
    err = None
    ctx = contextlib.nullcontext()
    if mode == 'line':
        cls = sim.pick([optuna.TrialPruned, MemoryError, KeyboardInterrupt, RuntimeError], 'class')
        line = 1 + (sim.choose(2500, 'line') if sim.chance(0.7, 'late') else sim.choose(60, 'line'))
        sim.describe('{} at line {}'.format(cls.__name__, line))
        ctx = seams.line_raiser(line, cls, 'interrupted')
    elif mode == 'worker':
        sim.armed.append(draw_fault(sim, 4))
    with seams.threaded(mean_quantum(sim)), ctx:
        try:
            out = k.run(model)
        except (HarnessError, Violation, Discard, SimAbort):
            raise
        except BaseException as e:   # noqa
            err, out = e, None
    sim.armed.clear()
    sim.ops += len(k.finished)
    no_pools(sim, 'after the search')
    if err is not None:
        if mode == 'none':
            raise Violation('search-failed', repr(err)[:300])
        sim.event('search failed', type(err).__name__)
        probe(sim, 'searches that failed')
    with sim.quiet():
        if out is not None:
            done = k.check(sim, out, oracle)
            probe(sim, 'trials checked', len(done))
        else:
            for number, state, value in k.finished:
                if state == 'COMPLETE':
                    check_value(sim, value, script[number], oracle, cv_type, 'trial {}'.format(number))
    # and again, with the same forecaster and the same folds
    if sim.chance(0.4, 'again') or err is not None:
        again = copy.copy(k)
        again.script, again.pruned, again.finished = draw_trials(sim, s, 2), set(), []
        again.store = sim.pick(['base', 'all'], 'storage')
        if 'generator' in how:
            again.folds = [(a, b) for a, b in pos]
        sim.describe('again: {}'.format(again.script))
        with seams.threaded(mean_quantum(sim)):
            try:
                out = again.run(model)
            except (HarnessError, Violation, Discard, SimAbort):
                raise
            except Exception as e:   # noqa
                raise Violation('search-failed', 'the second search: {!r}'.format(e)[:300])
        sim.ops += 2
        with sim.quiet():
            again.check(sim, out, oracle)


def validate(sim):
    """cross validation on its own, several scores at once"""
    from pyforecaster.metrics import make_scorer
    from pyforecaster.trainer import cross_validate
    s, x, y, folds, how, pos, metric, cv_type = setup(sim)
    if how == 'number':
        folds = list(pos)
    names = sorted({metric, sim.pick(['own', 'rmse'], 'second metric')})
    scoring = {('nmae' if m == 'default' else m): make_scorer(metric_of('nmae' if m == 'default' else m)) for m in names}
    single = sim.chance(0.3, 'one scorer')
    keys = list(scoring)
    if single:
        scoring = scoring[keys[0]]
    key = None if single or sim.chance(0.5, 'default key') else 'test_' + sim.pick(keys, 'key') if cv_type == 'full' else sim.pick(keys, 'key')
    pars = draw_trials(sim, s, 1)[0]
    store = sim.chance(0.7, 'stored')
    sim.describe('scores {}{} key {} parameters {} stored {}'.format(keys, ' (single)' if single else '', key, pars, store))
    with sim.quiet():
        oracles = {('nmae' if m == 'default' else m): Oracle(s, x.copy(), y.copy(), pos, m) for m in names}
        model = new(s, pars)
        used = sim.chance(0.3, 'fitted before')
        if used:
            model.fit(x.iloc[20:90], y.iloc[20:90] * 3)
    np.random.seed(sim.subseed('global') % 2 ** 31)
    with seams.threaded(mean_quantum(sim)):
        res, score = cross_validate(x, y, model, folds, scoring=scoring, cv_type=cv_type, storage_fun=keep_all if store else None,
                                    score_key=key)
    sim.ops += 1
    with sim.quiet():
        among = None
        if store:
            among = check_reply(sim, res['y_hat'], pars, oracles[keys[0]], cv_type, 'stored forecasts')
        if single:
            mains = {keys[0]: res['test_score']}
        elif cv_type == 'full':
            mains = {k: res['test_' + k] for k in keys}
        else:
            mains = {k: res[k] for k in keys}
        for k, got in mains.items():
            o = oracles[k]
            want = [o(pars, i)[0] for i in range(len(pos))]
            if cv_type == 'full':
                same(sim, 'score-differs', np.asarray(got), want, 'scores {} of the folds, together and alone'.format(k), **TOL)
            else:
                w = want if among is None else [want[i] for i in among]
                require(sim, 'score-differs', any(close(got, v) for v in w), 'the score {} is {}, alone {}'.format(k, got, w))
        # the first scorer counts unless another one is named
        main = keys[0] if key is None else key[5:] if cv_type == 'full' else key
        require(sim, 'score-differs', close(score, float(np.mean(mains[main]))), 'the score returned is {!r}, the scores are {}'.format(score, mains))


def side_by_side(sim):
    """searches of several threads with one forecaster, one set of folds and one set of data"""
    s, x, y, folds, how, pos, metric, cv_type = setup(sim)
    if 'generator' in how:
        folds = list(pos)
    if 'parallel' in s.kw:
        s.kw['parallel'] = False
    model = new(s)
    with sim.quiet():
        oracle = Oracle(s, x.copy(), y.copy(), pos, metric)
    ks = []
    for i in range(sim.between(2, 3, 'searches')):
        script = draw_trials(sim, s, sim.between(1, 3, 'trials'))
        ks.append(Search(s, x, y, folds, script, sim.pick([cv_type, 'full', 'random_fold'], 'cv'), metric, sim.pick(['base', 'all'], 'storage')))
        sim.describe('search {}: {} {}'.format(i, ks[-1].cv_type, script))
    fp = [fingerprint(v) for v in (x, y)]
    np.random.seed(sim.subseed('global') % 2 ** 31)
    got = seams.concurrently([lambda k=k: k.run(model) for k in ks], mean_quantum=mean_quantum(sim))
    for k, (out, e) in zip(ks, got):
        sim.ops += len(k.script)
        if e is not None:
            raise Violation('search-failed', 'beside others: {!r}'.format(e)[:300])
        with sim.quiet():
            k.check(sim, out, oracle)
    for v, f in zip((x, y), fp):
        require(sim, 'input-changed', not changed(v, f), 'the data shared by the searches')


SCENARIOS = [('search', search, 6), ('validate', validate, 3), ('side_by_side', side_by_side, 1)]
