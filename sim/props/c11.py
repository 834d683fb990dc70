"""C11: refitting a forecaster equals fitting a new one, whatever happened to it or to others before."""
import copy
import pickle

import numpy as np

from .. import models, seams
from ..compare import tree_diff
from ..core import Violation
from ..gen import attempt, cores, draw_fault, mean_quantum, probe, require, rng, same

PROP = 'C11'
FAMILIES = ['linear', 'lgb', 'hybrid', 'qrf', 'aware', 'persistent', 'seasonal', 'brutal']
FREE_STEPS = ('linear', 'lgb', 'hybrid', 'qrf', 'brutal')
PARALLEL = ('hybrid', 'qrf', 'aware')


def prepare():
    models.warm(neural=True)


def draw_data(sim, case, what):
    """plain description of a data set for the case"""
    v = copy.deepcopy(case)
    if not case.fkind:
        if case.family not in ('persistent', 'seasonal'):
            v.n_feat = sim.pick([case.n_feat, 2, 3, 4], 'features of ' + what)
        if case.family in FREE_STEPS:
            low = case.kw.get('n_single', 1)
            v.steps = sim.pick([case.steps] + [s for s in (1, 2, 3, 4) if s >= low], 'steps of ' + what)
        if case.family in ('linear', 'qrf'):
            v.cat = sim.chance(0.3, 'categories in ' + what)
    if not case.kw.get('online_tree_reduction', True):
        v.steps = case.steps
    return dict(case=v, seed=sim.subseed('data of ' + what), n=sim.pick([150, 180, 130], 'rows of ' + what) + 120 * (not case.kw.get('online_tree_reduction', True)),
                start=sim.pick(['2021-03-01', '2021-08-10 07:00', '2020-12-25 13:00'], 'start of ' + what),
                shift=sim.pick([0.0, 1000.0], 'level of ' + what), letters=sim.pick(['abc', 'xyz', 'cab'], 'letters of ' + what),
                rename=not case.fkind and case.family not in ('persistent', 'seasonal') and sim.chance(0.2, 'other names'))


def make(d):
    c = d['case']
    r = np.random.default_rng(d['seed'])
    x, y = models.data(c, r, d['n'], start=d['start'], steps=c.steps, shift=d['shift'])
    xt = models.data(c, np.random.default_rng(d['seed'] + 1), 30, start='2021-06-01 05:00')[0].iloc[:8]
    if 'kind' in x.columns:
        m = dict(zip('abc', d['letters']))
        x['kind'], xt['kind'] = x['kind'].map(m), xt['kind'].map(m)
    if d['rename']:
        x, xt = x.add_prefix('n_'), xt.add_prefix('n_')
        y = y.add_prefix('t_')
    return x, y, xt


def say(d):
    c = d['case']
    return '{} rows, {} steps, {} features{}{}, level {:g}'.format(d['n'], c.steps, c.n_feat, ', categories ' + d['letters'] if c.cat else '',
                                                           ', renamed' if d['rename'] else '', d['shift'])


def answers(m, case, xt):
    """point, quantile and scenario forecasts; an exception where the forecaster has none"""
    p = m.predict(xt.copy())
    out = [np.asarray(p), [list(map(str, p.columns))] if hasattr(p, 'columns') else []]
    if case.family != 'brutal':
        q = m.predict_quantiles(xt.copy())
        out[1] += [list(map(str, q.columns))] if hasattr(q, 'columns') else []
        out.append(np.asarray(q))
        np.random.seed(3)
        s, e = attempt(lambda: np.asarray(m.predict_scenarios(xt.copy(), random_state=2, n_scen=10)))
        out.append(s if e is None else type(e).__name__)
        if not case.kw.get('online_tree_reduction', True):
            out.append(m.predict_trees(xt.copy()))
            out.append([m.scengen.trees[h] for h in range(24)])
    return out


def compare(sim, case, got, want, what, kind='refit-differs'):
    rt, at = models.tolerance(case)
    same(sim, kind, got[0], want[0], what + ', forecasts', rtol=rt, atol=at)
    require(sim, kind, got[1] == want[1], '{}, labels: {} and {}'.format(what, got[1], want[1]))
    got, want = got[:1] + got[2:], want[:1] + want[2:]
    if len(want) > 1:
        same(sim, kind, got[1], want[1], what + ', quantiles', rtol=rt, atol=at)
        if isinstance(want[2], str) or isinstance(got[2], str):
            require(sim, kind, isinstance(got[2], str) and isinstance(want[2], str), '{}, scenarios: {} and {}'.format(
                what, got[2] if isinstance(got[2], str) else 'given', want[2] if isinstance(want[2], str) else 'given'))
        else:
            same(sim, kind, got[2], want[2], what + ', scenarios', rtol=max(rt, 1e-6), atol=max(at, 5e-6))
        for name, g, w in zip(('trees of rows', 'trees of hours'), got[3:], want[3:]):
            require(sim, kind, len(g) == len(w), '{}, {}: {} instead of {}'.format(what, name, len(g), len(w)))
            for k, (a, b) in enumerate(zip(g, w)):
                d = tree_diff(a, b, 1e-6, 1e-6)
                sim.compared += 1
                require(sim, kind, d is None, '{}, {} {}: {}'.format(what, name, k, d))


def refit(sim, families=FAMILIES):
    cores(sim)
    case = models.draw(sim, families)
    if case.family in ('linear', 'lgb', 'qrf', 'persistent') and case.steps > 1 and sim.chance(0.25, 'prefitted trees'):
        for k in ('val_ratio', 'max_scengen_rows', 'scengen_random_state'):
            case.kw.pop(k, None)
        case.kw.update(online_tree_reduction=False, tree_type=sim.pick(['DiffTree', 'QuantileTree', 'ScenredTree', 'DiffTree'], 'tree'),
                       nodes_at_step=[int(v) for v in 2 ** np.minimum(np.arange(case.steps), 2)], n_scen_fit=20, max_iterations=2,
                       additional_node=sim.chance(0.3, 'additional node'))
    last = draw_data(sim, case, 'the last fit')
    sim.describe(repr(case))
    with sim.quiet():
        x, y, xt = make(last)
        new = models.build(case)
        if case.family in PARALLEL:
            new.parallel = False
        np.random.seed(7)
        models.fit(new, case, x, y)
        want = answers(new, case, xt)
    m = models.build(case)
    for k in range(sim.between(1, 3, 'earlier fits')):
        d = draw_data(sim, case, 'fit {}'.format(k))
        with sim.quiet():
            x0, y0, xt0 = make(d)
        np.random.seed(k)
        if case.family in PARALLEL:
            m.parallel = sim.chance(0.4, 'parallel fit')
        how = sim.pick(['whole', 'whole', 'interrupted', 'worker'], 'how')
        sim.describe('fit {} ({}): {}'.format(k, how, say(d)))
        if how == 'worker' and case.family in PARALLEL:
            m.parallel = True
            sim.armed.append(draw_fault(sim, 3))
        with seams.threaded(mean_quantum(sim)):
            if how == 'interrupted':
                with seams.line_raiser(1 + sim.choose(400, 'line') if sim.chance(0.7, 'late') else 1 + sim.choose(40, 'line'),
                                       sim.pick([MemoryError, KeyboardInterrupt, ValueError], 'class')):
                    e = fit_anyhow(m, case, x0, y0)
            elif how == 'worker':
                e = fit_anyhow(m, case, x0, y0)
            else:
                models.fit(m, case, x0, y0)
                e = None
        sim.armed.clear()
        sim.ops += 1
        if e is not None:
            sim.event('fit failed', type(e).__name__)
            probe(sim, 'fits that failed')
        elif sim.chance(0.6, 'predict between'):
            with sim.quiet():
                answers(m, d['case'], xt0)
        if sim.chance(0.1, 'copied'):
            m = copy.deepcopy(m)
        elif case.family not in models.NEURAL and sim.chance(0.1, 'pickled'):
            m = pickle.loads(pickle.dumps(m))
    if case.family in PARALLEL:
        m.parallel = sim.chance(0.4, 'parallel last fit')
    sim.describe('last fit: ' + say(last))
    with sim.quiet():
        x, y, xt = make(last)
    np.random.seed(7)
    with seams.threaded(mean_quantum(sim)):
        models.fit(m, case, x, y)
    sim.ops += 1
    if case.family in PARALLEL:
        m.parallel = False
    with sim.quiet():
        got = answers(m, case, xt)
    compare(sim, case, got, want, 'refitted and new forecaster')


def fit_anyhow(m, case, x, y):
    from ..core import HarnessError, Discard, SimAbort
    try:
        models.fit(m, case, x, y)
    except (HarnessError, Discard, SimAbort, Violation):
        raise
    except BaseException as e:   # noqa
        return e


def neural(sim):
    refit(sim, ['ffnn', 'nn', 'lstm'])


def side_by_side(sim):
    """several forecasters fitted and asked in their own threads: each is as if it were alone"""
    cores(sim)
    fams = [f for f in FAMILIES if f != 'brutal']
    cases = [models.draw(sim, fams)]
    for _ in range(sim.between(1, 2, 'others')):
        cases.append(copy.deepcopy(cases[0]) if sim.chance(0.5, 'same kind') else models.draw(sim, fams))
    for c in cases:
        if c.family == 'hybrid':
            c.kw['n_single'] = c.steps        # the multi-step model picks its rows by the global random state
    ds = [draw_data(sim, c, 'forecaster {}'.format(i)) for i, c in enumerate(cases)]
    for c, d in zip(cases, ds):
        if c.family == 'hybrid':
            d['case'].steps = c.steps
    for c, d in zip(cases, ds):
        sim.describe('{!r}: {}'.format(c, say(d)))

    def run(c, d):
        x, y, xt = make(d)
        m = models.build(c)
        if c.family in PARALLEL:
            m.parallel = False
        models.fit(m, c, x, y)
        return [np.asarray(m.predict(xt.copy())), [], np.asarray(m.predict_quantiles(xt.copy())), 'none']
    wants = []
    with sim.quiet():
        for c, d in zip(cases, ds):
            wants.append(run(c, d))
    got = seams.concurrently([lambda c=c, d=d: run(c, d) for c, d in zip(cases, ds)], mean_quantum=mean_quantum(sim),
                             opcodes=sim.chance(0.03, 'bytecode'))
    for i, (c, (g, e), w) in enumerate(zip(cases, got, wants)):
        sim.ops += 1
        if e is not None:
            raise Violation('concurrent-fit-failed', 'forecaster {}: {!r}'.format(i, e))
        compare(sim, c, g, w, 'forecaster {} fitted beside others and alone'.format(i), 'fit-depends-on-others')


SCENARIOS = [('refit', refit, 24), ('side_by_side', side_by_side, 6), ('neural', neural, 2)]
