"""C10: prediction is a pure read of a fitted forecaster, also from concurrent threads."""
import copy
import pickle

import numpy as np
import pandas as pd

from .. import models, seams
from ..compare import changed, fingerprint, tree_diff
from ..core import Discard, Violation
from ..gen import attempt, cores, mean_quantum, probe, require, rng, same

PROP = 'C10'
FAMILIES = ['linear', 'lgb', 'hybrid', 'qrf', 'aware', 'persistent', 'seasonal', 'rff', 'additive', 'brutal']


def prepare():
    models.warm(neural=True)


class Ask:
    """one question, with the random state it is asked with"""

    def __init__(self, kind, rows, **kw):
        self.kind, self.rows, self.kw = kind, rows, kw

    def __repr__(self):
        return '{}{} of rows {}'.format(self.kind, self.kw or '', list(self.rows) if len(self.rows) < 6 else
                                        '{}..({})'.format(self.rows[0], len(self.rows)))

    def __call__(self, m, x):
        kw = copy.deepcopy(self.kw)
        if self.kind == 'predict':
            return m.predict(x, **kw)
        if self.kind == 'quantiles':
            return m.predict_quantiles(x, **kw)
        if self.kind == 'scenarios':
            return m.predict_scenarios(x, **kw)
        return m.predict_trees(x, **kw)


def draw_ask(sim, case, n):
    kinds = ['predict', 'quantiles', 'scenarios', 'trees', 'predict', 'quantiles']
    if case.family == 'brutal':
        kinds = ['predict']
    if case.steps < 2:
        kinds = [k for k in kinds if k != 'trees']
    kind = sim.pick(kinds, 'kind')
    k = sim.pick([3, 1, 2] if kind == 'trees' else [3, 1, 7, n], 'rows asked')
    i = sim.choose(n - k + 1, 'first')
    kw = {}
    if kind == 'quantiles' and case.family not in models.NEURAL:
        kw['dataframe'] = sim.chance(0.5, 'frame')
        if case.family == 'qrf' and sim.chance(0.5, 'asked quantiles'):
            kw['quantiles'] = sim.pick([[0.2, 0.8], [0.5]], 'q')
    if kind in ('predict', 'quantiles') and case.fkind and case.family in ('hybrid', 'aware', 'qrf') and sim.chance(0.4, 'period'):
        kw['period'] = '24h'
    if kind in ('scenarios', 'trees'):
        kw.update(random_state=sim.choose(5, 'random state'), n_scen=sim.pick([20, 9], 'scenarios'))
    if kind == 'trees':
        kw['nodes_at_step'] = np.minimum(2 ** np.arange(case.steps), 4)
        if sim.chance(0.5, 'layout list'):
            kw['nodes_at_step'] = [int(v) for v in kw['nodes_at_step']]
    return Ask(kind, range(i, i + k), **kw)


def fitted(sim, r, families, formatters=True):
    case = models.draw(sim, families, formatters)
    n = sim.pick([180, 130], 'rows')
    with sim.quiet():
        x, y = models.data(case, r, n)
        xt, _ = models.data(case, r, 40, start='2021-06-01 05:00')
        xt = xt.iloc[:30]
        np.random.seed(sim.subseed('fit') % 2 ** 31)
        m = models.build(case)
        if case.family in ('hybrid', 'qrf', 'aware'):
            m.parallel = False
        models.fit(m, case, x, y)
    sim.describe(repr(case))
    return case, m, x, y, xt


def alone(sim, case, m, ask, x):
    """what the question is answered on a copy of the forecaster nobody else uses"""
    with sim.quiet():
        np.random.seed(1)
        want, e = attempt(lambda: ask(copy.deepcopy(m), x.copy()))
        if e is not None:
            if ask.kind in ('scenarios', 'trees'):
                raise Discard('too few errors per hour for a copula')
            raise e
    return want


def tree_problem(case, got, want):
    g, w = (got, want) if isinstance(want, list) else ([got], [want])
    if not isinstance(got, list) == isinstance(want, list) or len(g) != len(w):
        return '{} trees instead of {}'.format(len(g), len(w))
    rt, at = models.tolerance(case)
    for i, (a, b) in enumerate(zip(g, w)):
        d = tree_diff(a, b, max(rt, 1e-6), max(at, 1e-5))
        if d:
            return 'tree {}: {}'.format(i, d)


def jittered(sim, case, m, ask, x, want):
    """scenarios carry a jitter of 1e-9 from the global random state, documented, which may decide between equally good
    reductions: then there is no single answer"""
    with sim.quiet():
        for s in range(2, 60):
            np.random.seed(s)
            if tree_problem(case, ask(copy.deepcopy(m), x.copy()), want):
                return True
    return False


def judge(sim, case, ref, ask, x, got, want, kind, what):
    """x: the rows asked about; ref: a copy of the forecaster nobody else uses"""
    if ask.kind == 'trees':
        p = tree_problem(case, got, want)
        if p and jittered(sim, case, ref, ask, x, want):
            probe(sim, 'trees decided by the jitter (not compared)')
            return
        sim.compared += 1
        if p:
            raise Violation(kind, '{}: {!r}: {}'.format(what, ask, p))
        return
    rt, at = models.tolerance(case)
    if ask.kind == 'scenarios':
        at = max(at, 2e-6)
    same(sim, kind, got, want, '{}: {!r}'.format(what, ask), rtol=rt, atol=at)


def threads(sim):
    cores(sim)
    r = rng(sim)
    case, m, _, _, xt = fitted(sim, r, FAMILIES)
    shared = sim.chance(0.6, 'threads share the frame')
    n_threads = sim.between(2, 4, 'threads')
    plans = [[draw_ask(sim, case, len(xt)) for _ in range(sim.between(1, 3, 'asks'))] for _ in range(n_threads)]
    if case.family in ('hybrid', 'qrf', 'aware'):
        m.parallel = sim.chance(0.4, 'parallel prediction')
    frames, ref = {}, copy.deepcopy(m)

    def frame(ask):
        if not shared:
            return xt.iloc[list(ask.rows)].copy()
        key = (ask.rows.start, ask.rows.stop)
        if key not in frames:
            frames[key] = xt.iloc[list(ask.rows)].copy()
        return frames[key]
    wants = [[alone(sim, case, ref, a, xt.iloc[list(a.rows)]) for a in p] for p in plans]
    inputs = [[frame(a) for a in p] for p in plans]
    prints = [[fingerprint(x) for x in p] for p in inputs]
    for t, p in enumerate(plans):
        sim.describe('thread {}: {}'.format(t, p))

    def body(p, xs):
        return lambda: [a(m, x) for a, x in zip(p, xs)]
    got = seams.concurrently([body(p, xs) for p, xs in zip(plans, inputs)], mean_quantum=mean_quantum(sim),
                             opcodes=sim.chance(0.05, 'bytecode'))
    for t, (p, (res, e), want) in enumerate(zip(plans, got, wants)):
        sim.ops += len(p)
        if e is not None:
            raise Violation('concurrent-call-failed', 'thread {}: {!r}'.format(t, e))
        for a, g, w in zip(p, res, want):
            judge(sim, case, ref, a, xt.iloc[list(a.rows)], g, w, 'concurrent-call-differs', 'thread {}'.format(t))
    for p, fps in zip(inputs, prints):
        for x, fp in zip(p, fps):
            c = changed(x, fp)
            require(sim, 'input-changed', c is None, 'the frame handed over: {}'.format(c))


def sequence(sim, families=FAMILIES):
    cores(sim)
    r = rng(sim)
    case, m, x, y, xt = fitted(sim, r, families)
    ref = copy.deepcopy(m)
    memo = {}
    asks = [draw_ask(sim, case, len(xt)) for _ in range(sim.between(2, 4, 'questions'))]
    if sim.chance(0.4, 'buffer'):
        # the training data were views of a buffer that the caller uses for other things now
        sim.fault('training-buffer-overwritten')
        for f in (x, y):
            for c in f.columns:
                if f[c].dtype.kind == 'f':
                    f[c] = -1e6
            if all(t.kind == 'f' for t in f.dtypes):
                f.values[:] = 1e6
    for k in range(sim.between(3, 8, 'calls')):
        if sim.chance(0.15, 'copy'):
            m = pickle.loads(pickle.dumps(m)) if case.family not in models.NEURAL and sim.chance(0.6, 'pickle') else copy.deepcopy(m)
        j = sim.choose(len(asks), 'question')
        if j not in memo:
            memo[j] = alone(sim, case, ref, asks[j], xt.iloc[list(asks[j].rows)])
        if case.family in ('hybrid', 'qrf', 'aware'):
            m.parallel = sim.chance(0.3, 'parallel prediction')
        with seams.threaded(mean_quantum(sim)):
            got = asks[j](m, xt.iloc[list(asks[j].rows)])
        sim.ops += 1
        sim.describe('call {}: {!r}'.format(k, asks[j]))
        judge(sim, case, ref, asks[j], xt.iloc[list(asks[j].rows)], got, memo[j], 'prediction-not-repeatable', 'call {}'.format(k))


def neural_sequence(sim):
    sequence(sim, ['ffnn', 'nn', 'lstm'])


def neural_threads(sim):
    cores(sim)
    r = rng(sim)
    case, m, _, _, xt = fitted(sim, r, ['ffnn', 'nn', 'lstm'])
    asks = [draw_ask(sim, case, len(xt)) for _ in range(sim.between(2, 3, 'threads'))]
    for i, a in enumerate(asks):
        a.rows = range(5) if i % 2 == 0 else range(5, 10)
    ref = copy.deepcopy(m)
    wants = [alone(sim, case, ref, a, xt.iloc[list(a.rows)]) for a in asks]
    shared = {k: xt.iloc[list(range(5)) if k == 0 else list(range(5, 10))].copy() for k in (0, 1)}
    prints = {k: fingerprint(v) for k, v in shared.items()}
    sim.describe(repr(asks))
    got = seams.concurrently([lambda a=a, i=i: a(m, shared[i % 2]) for i, a in enumerate(asks)], mean_quantum=mean_quantum(sim))
    for i, (a, (g, e), w) in enumerate(zip(asks, got, wants)):
        sim.ops += 1
        if e is not None:
            raise Violation('concurrent-call-failed', 'thread {}: {!r}'.format(i, e))
        judge(sim, case, ref, a, xt.iloc[list(a.rows)], g, w, 'concurrent-call-differs', 'thread {}'.format(i))
    for k in shared:
        c = changed(shared[k], prints[k])
        require(sim, 'input-changed', c is None, 'the frame handed over: {}'.format(c))


def rows(sim, families=None):
    """the forecast of a row does not depend on its neighbours in the call"""
    cores(sim)
    r = rng(sim)
    case, m, _, _, xt = fitted(sim, r, families or [f for f in FAMILIES if f != 'seasonal'])
    quant = case.family != 'brutal' and sim.chance(0.5, 'quantiles')
    kw = {'dataframe': False} if quant and case.family not in models.NEURAL else {}
    if case.fkind and case.family in ('hybrid', 'aware', 'qrf') and sim.chance(0.4, 'period'):
        kw['period'] = '24h'

    def call(x):
        v = m.predict_quantiles(x, **kw) if quant else m.predict(x, **kw)
        return np.asarray(v)
    with sim.quiet():
        want = call(xt.copy())
    order = r.permutation(len(xt)) if sim.chance(0.5, 'other order') else np.arange(len(xt))
    cuts = sorted({0, len(xt)} | {1 + sim.choose(len(xt) - 1, 'cut') for _ in range(sim.between(1, 3, 'cuts'))})
    if case.family in ('hybrid', 'qrf', 'aware'):
        m.parallel = sim.chance(0.4, 'parallel prediction')
    sim.describe('{} in {} calls{}'.format('quantiles' if quant else 'forecasts', len(cuts) - 1,
                                           '' if (order == np.arange(len(xt))).all() else ', shuffled'))
    rt, at = models.tolerance(case)
    for a, b in zip(cuts[:-1], cuts[1:]):
        pick = order[a:b]
        with seams.threaded(mean_quantum(sim)):
            got = call(xt.iloc[pick])
        sim.ops += 1
        same(sim, 'row-depends-on-batch', got, want[pick], 'rows {}'.format(list(pick)[:8]), rtol=rt, atol=at)


def neural_rows(sim):
    rows(sim, ['ffnn', 'nn', 'lstm'])


SCENARIOS = [('threads', threads, 16), ('sequence', sequence, 9), ('rows', rows, 7), ('neural_threads', neural_threads, 1),
             ('neural_sequence', neural_sequence, 1), ('neural_rows', neural_rows, 1)]
