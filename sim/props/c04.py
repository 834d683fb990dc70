"""C04: parallel scenario-tree prediction gives one right tree per row, in row order."""
import copy
import pickle

import numpy as np
import pandas as pd

from ..gen import cores, require, rng, attempt, probe
from ..core import Discard, Violation
from ..compare import tree_diff, tree_problem
from .. import seams

PROP = 'C04'


def prepare():
    from pyforecaster.scenarios_generator import ScenGen   # noqa
    from pyforecaster.forecaster import LinearForecaster   # noqa
    r = np.random.default_rng(0)
    for tree in ('ScenredTree', 'QuantileTree', 'DiffTree'):
        g = fitted(r, 3, tree, [1, 2, 4], {})
        x, q = batch(r, 1, 3, '2021-05-01')
        g.predict_trees(quantiles=q, n_scen=8, x=x)


def errs(r, days, steps, freq='1h'):
    idx = pd.date_range('2021-01-01', periods=24 * days, freq=freq)
    e = r.standard_normal((len(idx), steps)) @ (np.eye(steps) + 0.3 * r.standard_normal((steps, steps)))
    return pd.DataFrame(e, index=idx)


def fitted(r, steps, tree, nodes, kw, days=6, **fit_kw):
    from pyforecaster.scenarios_generator import ScenGen
    e = errs(r, days, steps)
    g = ScenGen(tree_type=tree, nodes_at_step=nodes, max_iterations=2 if tree == 'DiffTree' else 100, **kw)
    return g.fit(e, e, **fit_kw)


def batch(r, n, steps, start, freq='1h', order=None, tz=None, n_q=11):
    idx = pd.date_range(start, periods=n, freq=freq, tz=tz)
    if order is not None:
        idx = idx[order]
    x = pd.DataFrame({'f': np.arange(n)}, index=idx)
    level = r.standard_normal((n, 1, 1)) * 10 + np.arange(n)[:, None, None] * 5
    q = level + np.cumsum(r.standard_normal((n, steps, 1)), axis=1) + np.cumsum(0.05 + r.random((n, steps, n_q)), axis=2)
    return x, q


def layout(sim, steps, tree):
    """nodes per step, starting at one"""
    n, out = 1, [1]
    for _ in range(steps - 1):
        n *= sim.pick([2, 1, 2, 3], 'branching')
        n = min(n, 12 if tree != 'QuantileTree' else n)
        if tree == 'QuantileTree' and n > 16:
            n = out[-1]
        out.append(n)
    kind = sim.pick(['list', 'array'], 'layout type')
    return out if kind == 'list' else np.array(out)


def draw_batch(sim, r, steps, whole_day=False):
    n = sim.pick([3, 1, 2, 4, 5, 7, 9], 'rows')
    freq = sim.pick(['1h', '15min', '5h', '1d'], 'spacing of rows')
    order = r.permutation(n) if sim.chance(0.25, 'unsorted rows') else None
    tz = sim.pick([None, None, 'Europe/Zurich'], 'tz')
    start = sim.pick(['2021-05-01', '2021-05-01 22:00', '2021-03-27 23:00'], 'start')
    sim.describe('{} rows every {} from {}{}'.format(n, freq, start, '' if order is None else ' unsorted'))
    return batch(r, n, steps, start, freq, order, tz)


def check(sim, got, want, n, what):
    require(sim, 'wrong-tree-count', isinstance(got, list) and len(got) == n,
            '{}: {} trees for {} rows'.format(what, len(got) if isinstance(got, list) else type(got).__name__, n))
    for i, g in enumerate(got):
        p = tree_problem(g)
        require(sim, 'malformed-tree', p is None, '{}: tree of row {}: {}'.format(what, i, p))
    if want is not None:
        for i, (a, b) in enumerate(zip(got, want)):
            d = tree_diff(a, b, 1e-9, 1e-9)
            sim.compared += 1
            if d:
                raise Violation('wrong-tree', '{}: tree of row {}: {}'.format(what, i, d))


def counts(g):
    t = [g.nodes[n]['t'] for n in g.nodes]
    return [t.count(k) for k in range(max(t) + 1)]


def online(sim):
    cores(sim)
    r = rng(sim)
    tree = sim.pick(['ScenredTree', 'ScenredTree', 'QuantileTree', 'DiffTree'], 'tree')
    steps = 3 if tree == 'DiffTree' else sim.pick([3, 2, 4, 5, 6, 1], 'steps')
    extra = tree != 'DiffTree' and sim.chance(0.35, 'additional node')
    if steps == 1 and not extra:
        steps = 2
    at_init = sim.chance(0.6, 'layout at construction')
    lay = [1, 2, 4] if tree == 'DiffTree' else layout(sim, steps, tree)
    if extra:
        # the layout describes the steps after the additional node
        lay = [int(k) for k in lay]
    sim.describe('{} steps={} additional={} layout={}'.format(tree, steps, extra, list(lay) if at_init else None))
    kw = dict(additional_node=extra)
    how = sim.pick(['flag', 'ctor'], 'parallel flag set')
    with sim.quiet():
        ref0 = fitted(r, steps, tree, lay if at_init else None, kw)
        par = fitted(np.random.default_rng(0), steps, tree, lay if at_init else None, dict(kw, parallel_preds=True))
        par.copula = copy.deepcopy(ref0.copula)
        if how == 'flag':
            par = copy.deepcopy(ref0)
            par.parallel_preds = True
    for call in range(sim.between(1, 3, 'calls')):
        x, q = draw_batch(sim, r, steps)
        n = len(x)
        n_scen = 8 if tree == 'DiffTree' else sim.pick([20, 8, 12, 40], 'scenarios')
        per_call = not at_init or sim.chance(0.3, 'layout per call')
        if not per_call or tree == 'DiffTree' and at_init:
            nodes = None
        elif sim.chance(0.25, 'default layout') and tree == 'ScenredTree' and not at_init:
            nodes = None
        else:
            nodes = [1, 2, 4] if tree == 'DiffTree' else layout(sim, steps, tree)
        if tree == 'QuantileTree' and nodes is None and not at_init:
            nodes = layout(sim, steps, tree)
        init = None
        if extra and sim.chance(0.6, 'initial observations'):
            init = r.standard_normal(n) * 3
        rs = sim.choose(5, 'random state')
        frame = sim.chance(0.25, 'quantiles as frame') and steps > 1
        qa = q
        if frame:
            cols = pd.MultiIndex.from_product([par.q_vect, range(steps)])
            qa = pd.DataFrame(np.concatenate([q[:, :, k] for k in range(q.shape[2])], axis=1), index=x.index, columns=cols)
        parallel = sim.chance(0.85, 'parallel')
        par.parallel_preds = parallel
        sim.describe('call {}: n_scen {} layout {} init {} rs {} parallel {}'.format(
            call, n_scen, None if nodes is None else list(nodes), init is not None, rs, parallel))
        args = dict(n_scen=n_scen, nodes_at_step=nodes, init_obs=init, random_state=rs)
        if not frame or sim.chance(0.5, 'x given'):
            args['x'] = x
        np.random.seed(sim.subseed('jitter') % 2 ** 31)
        state = np.random.get_state()
        got = par.predict_trees(quantiles=qa, **args)
        sim.ops += 1
        with sim.quiet():
            np.random.set_state(state)
            ref = copy.deepcopy(ref0)
            want = ref.predict_trees(quantiles=qa, **args)
        check(sim, got, want, n, 'call {}'.format(call))
        lay_used = nodes if nodes is not None else (lay if at_init else None)
        if lay_used is not None and tree != 'ScenredTree':
            full = ([1] if extra else []) + [int(k) for k in lay_used]
            if steps + int(extra) == len(full):
                full[0] = 1
                for i, g in enumerate(got):
                    require(sim, 'wrong-layout', counts(g) == full, 'row {}: {} nodes per step instead of {}'.format(
                        i, counts(g), full))
        if not extra and tree != 'DiffTree':
            single_rows(sim, ref0, x, q, args, got, n)


def single_rows(sim, ref0, x, q, args, got, n):
    """rows whose hour is theirs alone in the batch: the tree predicted for such a row alone is the same"""
    hours = np.asarray(x.index.hour)
    cand = [i for i in range(n) if (hours == hours[i]).sum() == 1]
    if not cand:
        return
    i = cand[sim.choose(len(cand), 'row alone')]
    with sim.quiet():
        one = copy.deepcopy(ref0).predict_trees(quantiles=q[[i]], **dict(args, x=x.iloc[[i]]))
    check(sim, one, None, 1, 'row {} alone'.format(i))
    d = tree_diff(got[i], one[0], 1e-6, 1e-6)
    sim.compared += 1
    if d:
        raise Violation('wrong-tree', 'row {} in the batch and alone: {}'.format(i, d))


def prefitted(sim):
    cores(sim)
    r = rng(sim)
    tree = sim.pick(['ScenredTree', 'ScenredTree', 'QuantileTree'], 'tree')
    steps = sim.pick([3, 2, 4, 6], 'steps')
    extra = sim.chance(0.4, 'additional node')
    lay = layout(sim, steps, tree)
    sim.describe('prefit {} steps={} additional={} layout={}'.format(tree, steps, extra, list(lay)))
    with sim.quiet():
        np.random.seed(sim.subseed('jitter') % 2 ** 31)
        ref0 = fitted(r, steps, tree, lay, dict(additional_node=extra, online_tree_reduction=False), n_scen=12,
                      random_state=sim.choose(4, 'random state'))
        par = copy.deepcopy(ref0)
    restart = sim.chance(0.2, 'restart')
    if restart:
        par = pickle.loads(pickle.dumps(par))
    own = sim.chance(0.3, 'ray session open')
    if own:
        import ray
        ray.init()
    for call in range(sim.between(1, 3, 'calls')):
        x, q = draw_batch(sim, r, steps)
        n = len(x)
        preds = pd.DataFrame(q[:, :, 4], index=x.index, columns=['y{}'.format(k) for k in range(steps)])
        init = None
        if extra and sim.chance(0.5, 'initial observations'):
            init = r.standard_normal(n) * 3
        par.parallel_preds = sim.chance(0.85, 'parallel')
        sim.describe('call {}: init {} parallel {}'.format(call, init is not None, par.parallel_preds))
        got = par.predict_trees(predictions=preds, init_obs=init)
        sim.ops += 1
        with sim.quiet():
            ref = copy.deepcopy(ref0)
            want = ref.predict_trees(predictions=preds, init_obs=init)
            alone = [copy.deepcopy(ref0).predict_trees(predictions=preds.iloc[[i]],
                                                       init_obs=None if init is None else init[[i]])[0] for i in range(n)]
        check(sim, got, want, n, 'call {}'.format(call))
        check(sim, got, alone, n, 'call {} against rows alone'.format(call))
    if own:
        import ray
        require(sim, 'session-closed', ray.is_initialized(), 'the caller\'s ray session was closed')


def forecaster(sim):
    """trees asked from a forecaster: flag on the forecaster's scenario generator"""
    from pyforecaster.forecaster import LinearForecaster
    cores(sim)
    r = rng(sim)
    steps = sim.pick([3, 2, 4], 'steps')
    is_online = sim.chance(0.6, 'online')
    extra = sim.chance(0.3, 'additional node')
    lay = layout(sim, steps, 'ScenredTree')
    idx = pd.date_range('2021-01-01', periods=24 * 6, freq='1h')
    x = pd.DataFrame(r.standard_normal((len(idx), 2)), index=idx, columns=['a', 'b'])
    y = pd.DataFrame(x.values @ r.standard_normal((2, steps)) + r.standard_normal((len(idx), steps)), index=idx,
                     columns=['y{}'.format(i) for i in range(steps)])
    kw = dict(nodes_at_step=lay, additional_node=extra, online_tree_reduction=is_online, n_scen_fit=12)
    sim.describe('forecaster steps={} online={} additional={} layout={}'.format(steps, is_online, extra, list(lay)))
    with sim.quiet():
        np.random.seed(sim.subseed('jitter') % 2 ** 31)
        par = LinearForecaster(parallel_preds=True, **kw).fit(x.copy(), y.copy())
        ref0 = copy.deepcopy(par)
        ref0.scengen.parallel_preds = False
    for call in range(sim.between(1, 2, 'calls')):
        n = sim.pick([3, 2, 1, 5], 'rows')
        xt = pd.DataFrame(r.standard_normal((n, 2)), index=pd.date_range('2021-06-01 21:00', periods=n, freq='3h'),
                          columns=['a', 'b'])
        rs = sim.choose(4, 'random state')
        init = r.standard_normal(n) if extra and sim.chance(0.6, 'initial observations') else None
        args = dict(n_scen=12, random_state=rs, init_obs=init)
        np.random.seed(sim.subseed('jitter') % 2 ** 31)
        state = np.random.get_state()
        got = par.predict_trees(xt, **args)
        sim.ops += 1
        with sim.quiet():
            np.random.set_state(state)
            want = copy.deepcopy(ref0).predict_trees(xt, **args)
        if n == 1:
            require(sim, 'wrong-tree-count', not isinstance(got, list), 'one row: a list instead of one tree')
            got, want = [got], [want]
        check(sim, got, want, n, 'call {}'.format(call))


SCENARIOS = [('online', online, 5), ('prefitted', prefitted, 3), ('forecaster', forecaster, 2)]
