"""C14: with the seeds given, results depend on nothing else: not on other random draws, clocks, threads, cores, processes."""
import copy
import pickle
import random as pyrandom
import warnings

import numpy as np
import pandas as pd

from .. import child, models, seams
from ..compare import tree_diff
from ..core import Discard, Violation
from ..gen import attempt, cores, mean_quantum, probe, require, rng, same

PROP = 'C14'
FAMILIES = ['linear', 'lgb', 'qrf', 'hybrid', 'persistent', 'seasonal']
SAME = dict(rtol=1e-9, atol=2e-6)


def prepare():
    import matplotlib
    matplotlib.use('Agg')
    from . import c04
    models.warm()
    c04.prepare()
    child.start()


# ------------------------------------------------------------------------------------------------- things that must not matter
def draw_numbers(sim, r):
    """somebody else draws random numbers"""
    k = r.integers(0, 6)
    if k == 0:
        np.random.seed(int(r.integers(0, 1000)))
    elif k == 1:
        np.random.rand(int(r.integers(1, 50)))
    elif k == 2:
        np.random.permutation(7)
        np.random.standard_normal(3)
    elif k == 3:
        pyrandom.seed(int(r.integers(0, 1000)))
    elif k == 4:
        pyrandom.random()
        np.random.choice(5, 3)
    else:
        np.random.RandomState(5).rand(3)
        np.random.default_rng(5).random(3)
        np.random.multivariate_normal(np.zeros(2), np.eye(2), 3)
    sim.fault('foreign-random-draws')


def disturb(sim, r):
    for _ in range(sim.choose(4, 'draws')):
        draw_numbers(sim, r)
    if sim.chance(0.4, 'clock jump'):
        sim.jump_clock(sim.pick([3600.0, -86400.0, 1e8, 0.37], 'jump'))
        sim.fault('clock-jump')
    if sim.chance(0.3, 'time passes'):
        sim.advance(sim.pick([1.0, 1e5, 3e7], 'time'))
    if sim.chance(0.3, 'other cores'):
        sim.ncpu = sim.pick([1, 2, 3, 8], 'cores now')


class Ask:
    def __init__(self, kind, rows, rs, n_scen, nodes=None, kw=None):
        self.kind, self.rows, self.rs, self.n_scen, self.nodes, self.kw = kind, rows, rs, n_scen, nodes, kw or {}

    def __repr__(self):
        return '{} of rows {} random_state={} n_scen={}{}'.format(self.kind, list(self.rows), self.rs, self.n_scen,
                                                                 '' if self.nodes is None else ' nodes {}'.format(list(self.nodes)))

    def state(self):
        if isinstance(self.rs, tuple):
            return {'np64': np.int64, 'state': np.random.RandomState, 'generator': np.random.default_rng}[self.rs[0]](self.rs[1])
        return self.rs

    def __call__(self, m, x):
        x = x.iloc[list(self.rows)].copy()
        if self.kind == 'scenarios':
            return np.asarray(m.predict_scenarios(x, n_scen=self.n_scen, random_state=self.state()))
        kw = {}
        if self.nodes is not None:
            kw['nodes_at_step'] = np.array(self.nodes)
        if self.kw.get('init'):
            kw['init_obs'] = np.arange(len(x)) * 1.0
        return m.predict_trees(x, n_scen=self.n_scen, random_state=self.state(), **kw)


def draw_ask(sim, case, n, trees=True):
    kinds = ['scenarios', 'trees', 'scenarios']
    if case.steps < 2 and not case.extra or not trees:
        kinds = ['scenarios']
    kind = sim.pick(kinds, 'kind')
    k = sim.pick([3, 1, 2] if kind == 'trees' else [3, 1, 6, 26], 'rows asked')
    i = sim.choose(n - k + 1, 'first')
    rs = sim.pick([0, 3, 1, 12345, ('np64', 4), ('state', 2), ('generator', 2)], 'random state')
    if kind == 'scenarios':
        return Ask(kind, range(i, i + k), rs, sim.pick([20, 7, 60], 'scenarios'))
    nodes = None
    if case.online and sim.chance(0.7, 'layout'):
        nodes = [int(v) for v in np.minimum(2 ** np.arange(case.steps), 4)]
    elif case.tree == 'QuantileTree' and case.online:
        nodes = [int(v) for v in 2 ** np.minimum(np.arange(case.steps), 3)]
    return Ask(kind, range(i, i + k), rs, sim.pick([20, 11], 'scenarios'), nodes, {'init': case.extra and sim.chance(0.5, 'initial observation')})


def draw_case(sim, families=FAMILIES):
    case = models.draw(sim, families)
    if case.family == 'hybrid':
        case.kw['n_single'] = case.steps      # the multi-step model picks its rows by the global random state, no seed is given
    case.tree = sim.pick(['ScenredTree', 'QuantileTree'], 'tree')
    case.extra = sim.chance(0.4, 'additional node')
    case.online = True
    case.kw.update(tree_type=case.tree, additional_node=case.extra)
    if sim.chance(0.3, 'prefitted') and case.steps > 1:
        case.online = False
        case.kw.update(online_tree_reduction=False, nodes_at_step=[int(v) for v in 2 ** np.minimum(np.arange(case.steps), 2)], n_scen_fit=20)
    if sim.chance(0.3, 'parallel trees'):
        case.kw['parallel_preds'] = True
    case.kw.pop('max_scengen_rows', None)       # few errors per hour are too few for a copula
    if 'val_ratio' in case.kw:
        case.kw['val_ratio'] = 0.6
    if case.steps > 1 and sim.chance(0.2, 'covariance'):
        case.kw['cov_est_method'] = sim.pick(['shrunk', 'glasso'], 'method')
    return case


def fitted(sim, case, seed, n, glob, parallel=False):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x, y = models.data(case, np.random.default_rng(seed), n)
        xt = models.data(case, np.random.default_rng(seed + 1), 40, start='2021-06-01 05:00')[0].iloc[:30]
        np.random.seed(glob)
        m = models.build(case)
        if case.family in ('hybrid', 'qrf'):
            m.parallel = parallel
        m, e = attempt(lambda: models.fit(m, case, x, y))
        if e is not None:
            if isinstance(e, (np.linalg.LinAlgError, FloatingPointError)) or 'covariance' in str(e) or 'singular' in str(e) \
                    or not case.online and isinstance(e, (ValueError, KeyError)):
                raise Discard('no covariance can be estimated')
            raise e
    return m, xt


def first_answer(sim, m, ask, x):
    with sim.quiet():
        np.random.seed(11)
        pyrandom.seed(11)
        seq = copy.deepcopy(m)
        seq.scengen.parallel_preds = False
        want, e = attempt(lambda: ask(seq, x))
    if e is not None:
        if isinstance(e, (ValueError, KeyError, np.linalg.LinAlgError)):
            raise Discard('too few errors per hour for a copula')
        raise e
    return want


def judge(sim, ask, got, want, kind, what):
    sim.compared += 1
    if ask.kind == 'scenarios':
        same(sim, kind, got, want, '{}: {!r}'.format(what, ask), **SAME)
        return
    g, w = (got, want) if isinstance(want, list) else ([got], [want])
    if isinstance(got, list) != isinstance(want, list) or len(g) != len(w):
        raise Violation(kind, '{}: {!r}: another number of trees'.format(what, ask))
    for i, (a, b) in enumerate(zip(g, w)):
        d = tree_diff(a, b, 1e-6, 1e-5)
        if d:
            raise Violation(kind, '{}: {!r}: tree {}: {}'.format(what, ask, i, d))


def answer_elsewhere(blob, ask, x, seed):
    np.random.seed(seed)
    pyrandom.seed(seed)
    m = pickle.loads(blob)
    m.scengen.parallel_preds = False
    if hasattr(m, 'parallel'):
        m.parallel = False
    return ask(m, x)


def forecasts(sim):
    """scenarios and trees of a fitted forecaster, asked again and again amid everything that must not matter"""
    cores(sim)
    r = np.random.default_rng(sim.subseed('others'))
    case = draw_case(sim)
    sim.describe(repr(case))
    with sim.quiet():
        m, xt = fitted(sim, case, sim.subseed('data'), sim.pick([240, 270], 'rows'), sim.subseed('fit') % 2 ** 31)
    asks = [draw_ask(sim, case, len(xt)) for _ in range(sim.between(1, 2, 'questions'))]
    wants = [first_answer(sim, m, a, xt) for a in asks]
    for k in range(sim.between(2, 5, 'repetitions')):
        j = sim.choose(len(asks), 'question')
        a = asks[j]
        disturb(sim, r)
        how = sim.pick(['here', 'copy', 'pickle', 'elsewhere'], 'how')
        sim.describe('{} {!r}'.format(how, a))
        if how == 'elsewhere':
            with sim.quiet():
                got = child.other().call('sim.props.c14:answer_elsewhere', pickle.dumps(m), a, xt, sim.subseed('elsewhere') % 2 ** 31)
            sim.fault('restart-in-another-process')
        else:
            mm = m if how == 'here' else copy.deepcopy(m) if how == 'copy' else pickle.loads(pickle.dumps(m))
            if case.family in ('qrf', 'hybrid'):
                mm.parallel = sim.chance(0.3, 'parallel')
            with seams.threaded(mean_quantum(sim)):
                got = a(mm, xt)
        sim.ops += 1
        judge(sim, a, got, wants[j], 'not-reproducible', how)


def concurrent(sim):
    """the same questions from several threads, others drawing random numbers meanwhile"""
    cores(sim)
    case = draw_case(sim)
    case.kw['parallel_preds'] = False
    sim.describe(repr(case))
    with sim.quiet():
        m, xt = fitted(sim, case, sim.subseed('data'), 250, sim.subseed('fit') % 2 ** 31)
    asks = [draw_ask(sim, case, len(xt)) for _ in range(sim.between(1, 3, 'questions'))]
    wants = [first_answer(sim, m, a, xt) for a in asks]
    sim.describe(repr(asks))
    seed = sim.subseed('drawer')

    def drawer():
        r = np.random.default_rng(seed)
        for _ in range(12):
            draw_numbers(sim, r)
            seams.yield_now()
    own = sim.chance(0.5, 'each its own copy')
    ms = [copy.deepcopy(m) if own else m for _ in asks]
    fns = [lambda a=a, mm=mm: a(mm, xt) for a, mm in zip(asks, ms)]
    got = seams.concurrently(fns + [drawer], mean_quantum=mean_quantum(sim))
    for a, (g, e), w in zip(asks, got, wants):
        sim.ops += 1
        if e is not None:
            raise Violation('concurrent-call-failed', '{!r}: {!r}'.format(a, e)[:300])
        judge(sim, a, g, w, 'not-reproducible', 'beside other threads')


def distinct(sim):
    """another random state gives other scenarios"""
    cores(sim)
    case = draw_case(sim)
    case.kw['parallel_preds'] = False
    with sim.quiet():
        m, xt = fitted(sim, case, sim.subseed('data'), 250, 3)
    a = draw_ask(sim, case, len(xt), trees=False)
    pool = [0, 1, 2, 3, 7, 1000, 2 ** 31 - 1, 2 ** 32 - 1]
    i = sim.choose(len(pool), 'first state')
    j = (i + 1 + sim.choose(len(pool) - 1, 'second state')) % len(pool)
    sim.describe('{!r} with random states {} and {}'.format(a, pool[i], pool[j]))
    glob = sim.choose(3, 'global state')
    out = []
    for rs in (pool[i], pool[j]):
        b = copy.copy(a)
        b.rs = rs
        np.random.seed(glob)
        v, e = attempt(lambda: b(m, xt))
        if e is not None:
            raise Discard('too few errors per hour for a copula')
        out.append(v)
    sim.ops += 2
    k = 1 if case.extra else 0
    a0, a1 = out[0][:, k:], out[1][:, k:]
    spread = np.ptp(a0, axis=-1)
    require(sim, 'random-state-ignored', spread.max() < 1e-3 or np.abs(a0 - a1).max() > 1e-4,
            'random states {} and {} give the same scenarios'.format(pool[i], pool[j]))
    probe(sim, 'pairs of states')


def refit(sim):
    """the same data, settings and seeds give the same forecaster, whatever was drawn before or while fitting"""
    cores(sim)
    r = np.random.default_rng(sim.subseed('others'))
    case = draw_case(sim, ['qrf', 'linear', 'qrf', 'lgb', 'hybrid'])
    if not case.online:
        # trees fitted beforehand are drawn while fitting, where no seed can be given
        for k in ('online_tree_reduction', 'nodes_at_step', 'n_scen_fit'):
            case.kw.pop(k)
        case.online = True
    if case.family == 'qrf' and sim.chance(0.5, 'deeper leaves'):
        case.kw['min_samples_leaf'] = 5
    if case.family == 'qrf' and sim.chance(0.3, 'sampled rows'):
        case.kw['max_samples'] = 0.7
    if case.family == 'qrf':
        case.kw['max_features'] = sim.pick([1.0, 0.5], 'features per split')
    sim.describe(repr(case))
    seed, n = sim.subseed('data'), sim.pick([240, 270], 'rows')
    with sim.quiet():
        m, xt = fitted(sim, case, seed, n, sim.subseed('fit') % 2 ** 31)
        q0, p0 = np.asarray(m.predict_quantiles(xt.copy())), np.asarray(m.predict(xt.copy()))
    asks = [draw_ask(sim, case, len(xt))]
    want = first_answer(sim, m, asks[0], xt)
    for k in range(sim.between(1, 2, 'refits')):
        disturb(sim, r)
        par = sim.chance(0.5, 'parallel')
        where = sim.pick(['here', 'here', 'thread'], 'where')
        sim.describe('fit {} {}'.format(where, 'parallel' if par else ''))
        box = []

        def job():
            box.append(fitted(sim, case, seed, n, sim.subseed('fit again') % 2 ** 31, par)[0])

        def drawer(s=sim.subseed('drawer')):
            rr = np.random.default_rng(s)
            for _ in range(8):
                draw_numbers(sim, rr)
                seams.yield_now()
        if where == 'thread':
            got = seams.concurrently([job, drawer], mean_quantum=mean_quantum(sim))
            if got[0][1] is not None:
                raise got[0][1]
        else:
            with seams.threaded(mean_quantum(sim)):
                job()
        m2 = box[0]
        sim.ops += 1
        if case.family in ('qrf', 'hybrid'):
            m2.parallel = sim.chance(0.3, 'parallel forecast')
        disturb(sim, r)
        with seams.threaded(mean_quantum(sim)):
            p, q = np.asarray(m2.predict(xt.copy())), np.asarray(m2.predict_quantiles(xt.copy()))
        same(sim, 'fit-not-reproducible', p, p0, 'point forecasts after fitting twice', rtol=1e-9, atol=1e-9)
        same(sim, 'fit-not-reproducible', q, q0, 'quantiles after fitting twice', rtol=1e-9, atol=1e-9)
        judge(sim, asks[0], asks[0](m2, xt), want, 'fit-not-reproducible', 'after fitting twice')


def fit_rows(kw, family, seed, n, steps, glob, freq='1h', start='2021-03-01', gap=False):
    """fit with a cap on the rows; returns the rows the errors were taken from, and the error distribution"""
    case = models.Case(family=family, kw=dict(kw), steps=steps, fkind=None, cat=False, n_feat=2)
    x, y = models.data(case, np.random.default_rng(seed), n)
    x.index = y.index = pd.date_range(start, periods=n, freq=freq)
    if gap:
        keep = np.random.default_rng(seed).random(n) < 0.7
        x, y = x[keep], y[keep]
    np.random.seed(glob)
    pyrandom.seed(glob)
    m = models.build(case)
    seen = []
    real = m.predict

    def spy(xx, *a, **k):
        seen.append(list(xx.index.asi8))
        return real(xx, *a, **k)
    m.predict = spy
    try:
        m.fit(x, y)
    finally:
        del m.predict
    return seen[-1] if seen else None, m.err_distr, [int(v) for v in x.index.asi8], m


def cap(sim):
    """which rows a capped post-fit uses"""
    cores(sim)
    r = np.random.default_rng(sim.subseed('others'))
    family = sim.pick(['linear', 'qrf', 'lgb'], 'family')
    kw = dict(max_scengen_rows=sim.pick([60, 30, 100, 20, 7], 'cap'), conditional_to_hour=True)
    seed_state = sim.pick([None, 0, 3, 11], 'cap seed')
    if seed_state is not None:
        kw['scengen_random_state'] = np.int64(seed_state) if sim.chance(0.3, 'numpy integer') else seed_state
    own = None
    if family == 'qrf':
        own = sim.pick([0, 5, 9], 'forest seed')
        kw.update(n_estimators=4, random_state=own, n_single=0, parallel=False)
    elif family == 'lgb':
        kw.update(models.SMALL_GB, n_jobs_predict=1)
    if sim.chance(0.3, 'validation share'):
        kw['val_ratio'] = 0.6
    n = sim.pick([200, 150, 260], 'rows')
    freq = sim.pick(['1h', '30min', '7h'], 'spacing')
    seed = sim.subseed('data')
    gap = sim.chance(0.3, 'gaps')
    where = dict(freq=freq, start=sim.pick(['2021-03-01', '2020-12-30 11:00'], 'start'), gap=gap)
    sim.describe('{} {} {} rows {}'.format(family, {k: v for k, v in kw.items() if k not in models.SMALL_GB}, n, where))
    # two targets are too many for the errors of one hour when few rows are kept: one target
    def fit(kw2, glob, fam=family):
        with sim.quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fit_rows(kw2, fam, seed, n, 1, glob, **where)
    rows0, err0, index, _ = fit(kw, 1)
    if rows0 is not None:
        require(sim, 'rows-invented', set(rows0) <= set(index), 'rows that were not among those given')
        require(sim, 'too-many-rows', len(rows0) <= kw['max_scengen_rows'], '{} rows although at most {} were asked for'.format(
            len(rows0), kw['max_scengen_rows']))
        probe(sim, 'row selections seen')
    for k in range(sim.between(1, 3, 'again')):
        disturb(sim, r)
        how = sim.pick(['again', 'elsewhere', 'beside'], 'how')
        glob = sim.choose(1000, 'global state')
        if how == 'elsewhere':
            with sim.quiet():
                rows, err, _ = child.other().call('sim.props.c14:fit_rows_only', kw, family, seed, n, 1, glob, where)
        elif how == 'beside':
            def drawer(s=sim.subseed('drawer')):
                rr = np.random.default_rng(s)
                for _ in range(8):
                    draw_numbers(sim, rr)
                    seams.yield_now()
            res = seams.concurrently([lambda: fit_rows(kw, family, seed, n, 1, glob, **where), drawer], mean_quantum=mean_quantum(sim))
            if res[0][1] is not None:
                raise res[0][1]
            rows, err = res[0][0][:2]
        else:
            rows, err, _, _ = fit(kw, glob)
        sim.ops += 1
        same(sim, 'other-rows', rows, rows0, 'the rows selected, {}'.format(how))
        same(sim, 'other-rows', err, err0, 'the error distribution, {}'.format(how), rtol=1e-9, atol=1e-9)
    if rows0 is None or len(rows0) < 7:
        return
    # the documented choice of the seed
    eff = seed_state if seed_state is not None else own if own is not None else 0
    rows, err, _, _ = fit(dict(kw, scengen_random_state=eff), 5)
    same(sim, 'wrong-seed', rows, rows0, 'the rows selected with the documented seed {} given explicitly'.format(eff))
    if len(rows0) < 0.7 * len(index) and kw.get('val_ratio') is None:
        rows, err, _, _ = fit(dict(kw, scengen_random_state=eff + 1), 1)
        require(sim, 'seed-ignored', rows != rows0, 'seeds {} and {} select the same rows'.format(eff, eff + 1))


def fit_rows_only(kw, family, seed, n, steps, glob, where):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fit_rows(kw, family, seed, n, steps, glob, **where)[:3]


def builders(sim):
    """the tree builders alone: the same scenarios give the same tree"""
    from pyforecaster import tree_builders as T
    r = rng(sim)
    others = np.random.default_rng(sim.subseed('others'))
    kind = sim.pick(['ScenredTree', 'QuantileTree', 'NeuralGas', 'DiffTree'], 'builder')
    steps = 3
    scens = np.cumsum(r.standard_normal((steps, 8)), axis=0)
    kw = dict(nodes_at_step=np.array([1, 2, 4]))
    if kind in ('NeuralGas', 'DiffTree'):
        kw.update(do_plot=False, k_max=sim.pick([3, 6], 'iterations'))
    sim.describe('{} {}'.format(kind, kw))
    b = getattr(T, kind)()

    def go(builder, glob):
        np.random.seed(glob)
        return builder.gen_tree(scens.copy(), **copy.deepcopy(kw))[0]
    with sim.quiet():
        want = go(b, 0)
    for k in range(sim.between(1, 3, 'again')):
        disturb(sim, others)
        bb = sim.pick([b, getattr(T, kind)(), copy.deepcopy(b)], 'builder')
        got = go(bb, sim.choose(1000, 'global state'))
        sim.ops += 1
        d = tree_diff(got, want, 1e-5, 1e-5)
        sim.compared += 1
        if d:
            raise Violation('not-reproducible', '{}: {}'.format(kind, d))


SCENARIOS = [('forecasts', forecasts, 6), ('concurrent', concurrent, 4), ('refit', refit, 4), ('cap', cap, 5), ('distinct', distinct, 2),
             ('builders', builders, 1)]
