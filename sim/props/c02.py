"""C02: a failing worker surfaces and leaves nothing broken behind."""
import copy

import numpy as np
import pandas as pd

from ..gen import cores, same, require, rng, mean_quantum, attempt, draw_fault, no_pools, probe
from ..core import Discard, Violation
from ..compare import tree_diff
from .. import seams, fmt, models
from . import c01, c03, c04, c06

PROP = 'C02'
TASK = ('task-raise-before', 'task-raise-mid', 'task-raise-after')
ALL = TASK + ('worker-death', 'start-failure')


def prepare():
    c04.prepare()
    c06.prepare()
    models.warm()


def plain(z):
    """something that can be compared"""
    if isinstance(z, tuple):
        return [plain(v) for v in z]
    return z


def equal(sim, kind, got, want, what, rtol, atol):
    if isinstance(want, list) and want and hasattr(want[0], 'nodes'):
        require(sim, kind, isinstance(got, list) and len(got) == len(want),
                '{}: {} trees instead of {}'.format(what, len(got) if isinstance(got, list) else type(got).__name__, len(want)))
        for i, (a, b) in enumerate(zip(got, want)):
            d = tree_diff(a, b, rtol, atol)
            sim.compared += 1
            if d:
                raise Violation(kind, '{}: tree {}: {}'.format(what, i, d))
        return
    if isinstance(want, tuple):
        require(sim, kind, isinstance(got, tuple) and len(got) == len(want), '{}: got {}'.format(what, type(got).__name__))
        for i, (a, b) in enumerate(zip(got, want)):
            equal(sim, kind, a, b, '{}, part {}'.format(what, i), rtol, atol)
        return
    same(sim, kind, got, want, what, rtol=rtol, atol=atol)


class Op:
    """make(): fresh objects; call(objs): the parallel operation; look(objs, out): what is compared (default: out);
    fresh: the objects are not used for a second successful call"""

    def __init__(self, name, make, call, n_tasks, look=None, fresh=False, rtol=1e-9, atol=1e-9, kinds=ALL, ray=False):
        self.name, self.make, self.call, self.n_tasks = name, make, call, n_tasks
        self.look = look or (lambda objs, out: out)
        self.fresh, self.rtol, self.atol, self.kinds, self.ray = fresh, rtol, atol, kinds, ray


def left_behind(sim, session, when):
    no_pools(sim, when)
    s = seams.sched()
    left = [t.name for t in s.threads if t.state != 'done'] + [
        t.label for p in s.pools for t in p.inflight + p.queue if p.label != 'ray' or session is None]   # a session goes on with its tasks
    require(sim, 'task-left-running', not left, '{}: {} still running'.format(when, left))
    now = seams.ray_generation()
    if session is None:
        require(sim, 'session-left-open', now is None, '{}: the ray session opened by the call is still open'.format(when))
    else:
        require(sim, 'session-closed', now == session, '{}: the caller\'s ray session was closed'.format(when))


def drive(sim, op):
    q = mean_quantum(sim)
    seed = sim.subseed('global') % 2 ** 31
    with sim.quiet():
        objs = op.make()
        np.random.seed(seed)
        out = op.call(objs)
        want = op.look(objs, out)
    session = None
    if sim.chance(0.35 if op.ray else 0.1, 'ray session open'):
        import ray
        ray.init()
        session = seams.ray_generation()
    sim.describe('quantum {} session {}'.format(q, session is not None))
    with sim.quiet():
        objs = op.make()
    failed = 0

    def once(what, must):
        nonlocal objs, failed
        np.random.seed(seed)
        faults = list(sim.armed)
        with seams.threaded(q):
            out, err = attempt(lambda: op.call(objs))
        sim.armed = []
        sim.ops += 1
        hit = sum(f.fired for f in faults)
        if err is not None:
            text = '{}: {}: {}'.format(what, type(err).__name__, str(err)[:160])
            err.__traceback__ = None
            err = True
            require(sim, 'repeat-failed' if must else 'failed-without-fault', hit > 0, text)
            failed += 1
            probe(sim, 'failed calls')
        left_behind(sim, session, what)
        if err is None:
            with sim.quiet():
                got = op.look(objs, out)
            equal(sim, 'repeat-differs' if must and failed else 'partial-or-substituted', got, want, what, op.rtol, op.atol)
            if hit:
                probe(sim, 'survived')
            if op.fresh:
                with sim.quiet():
                    objs = op.make()

    rounds = sim.between(1, 3, 'rounds')
    for k in range(rounds):
        sim.armed = [draw_fault(sim, op.n_tasks, op.kinds)]
        if sim.chance(0.25, 'second fault'):
            sim.armed.append(draw_fault(sim, op.n_tasks, op.kinds))
        once('{}, call {} under {}'.format(op.name, k, sim.armed), False)
        if sim.chance(0.3, 'repeat between'):
            once('{}, repeated after call {}'.format(op.name, k), True)
    once('{}, repeated'.format(op.name), True)


# ------------------------------------------------------------------------------------------------ dataframe utilities
def f_fail_free(p, a=0, b=1):
    return p * 10 + a, b


def utilities(sim):
    from pyforecaster.big_data_utils import fdf_parallel, mapper, reduce_mem_usage
    cores(sim)
    r = rng(sim)
    what = sim.pick(['frame', 'list', 'memory', 'mapper'], 'utility')
    if what == 'mapper':
        n = sim.between(1, 12, 'parameters')
        sim.describe('mapper {}'.format(n))
        op = Op('mapper', lambda: None, lambda o: mapper(c01.f_mix, list(range(n)), 3, b=2), n)
        return drive(sim, op)
    axis, use_ray = sim.choose(2, 'axis'), sim.chance(0.5, 'ray')
    n, m = sim.between(1, 12, 'rows'), sim.between(1, 10, 'cols')
    n_splits = sim.pick([None, 1, 2, 3, 5], 'n_splits')
    if what == 'memory':
        df = pd.DataFrame({'c{}'.format(j): r.standard_normal(n) * 10 if j % 2 else r.integers(-100, 1000, n) for j in range(m)})
        sim.describe('reduce_mem_usage {}x{} ray={}'.format(n, m, use_ray))
        op = Op('reduce_mem_usage', lambda: df.copy(), lambda o: reduce_mem_usage(o, parallel=True, use_ray=use_ray), min(m, 4),
                look=lambda o, out: (out.astype(float), o.astype(float)), rtol=3e-7, ray=use_ray)
        return drive(sim, op)
    f = sim.pick(c01.ROWWISE if axis == 0 else c01.COLWISE, 'function')
    recast = not sim.chance(0.3, 'per-chunk')
    if what == 'frame':
        data = pd.DataFrame(r.standard_normal((n, m)), columns=['c{}'.format(j) for j in range(m)])
        k = n_splits or 4
    else:
        k = sim.between(1, 6, 'frames')
        data = [pd.DataFrame(r.standard_normal((n, m)), columns=['c{}_{}'.format(j, i if axis else 0) for j in range(m)])
                for i in range(k)]
    sim.describe('fdf_parallel({}, {} {}x{}, n_splits={}, axis={}, ray={}, recast={})'.format(
        f.__name__, what, n, m, n_splits, axis, use_ray, recast))
    op = Op('fdf_parallel', lambda: copy.deepcopy(data),
            lambda o: fdf_parallel(f, o, n_splits=n_splits, axis=axis, use_ray=use_ray, recast=recast), k,
            look=lambda o, out: (out, o), ray=use_ray)
    drive(sim, op)


# ------------------------------------------------------------------------------------------------ feature generation
def features(sim):
    cores(sim)
    r = rng(sim)
    dt = sim.pick(fmt.FREQS, 'sampling')
    glob = sim.chance(0.5, 'global form')
    n = sim.between(40, 60, 'rows')
    kw = dict(time_features=sim.chance(0.3, 'time features'))
    if glob:
        n_sig = sim.between(1, 6, 'signals')
        shared = ['sa', 'sb'][:sim.between(0, 2, 'shared columns')]
        sig = ['s{}'.format(i) for i in range(n_sig)]
        spec = c03.global_spec(sim, dt, shared)
        x = fmt.signals(r, n, sig + shared, dt)
        with sim.quiet():
            for df in fmt.build(spec).global_form_preprocess(x.copy())[:1]:
                c03.enough_rows(spec, df)
        corr = sim.chance(0.2, 'corr_reorder')
        sim.describe('global form, {} signals {} {}'.format(n_sig, kw, fmt.describe(spec)))

        def call(o):
            return o.transform(x.copy(), global_form=True, parallel=True, corr_reorder=corr, reduce_memory=False, **kw)
        tasks = n_sig
    else:
        cols = ['a', 'b', 'c']
        spec = fmt.draw_spec(sim, cols, dt, max_tr=5, causal=False)
        x = fmt.signals(r, n, cols, dt)
        with sim.quiet():
            c03.enough_rows(spec, x)
        sim.describe('threads {} {}'.format(kw, fmt.describe(spec)))

        def call(o):
            return o._transform(x.copy(), parallel=True, **kw)
        tasks = len(spec['transformers'])
    n_par = sim.pick([None, 1, 2, 3], 'n_parallel')

    def look(o, out):
        return tuple(out) + (fmt.metadata(o, True), o.get_time_lims(include_target=False))
    drive(sim, Op('transform', lambda: fmt.build(spec, n_parallel=n_par), call, tasks, look=look,
                  kinds=ALL if glob else TASK + ('start-failure',), ray=glob))


# ------------------------------------------------------------------------------------------------ trees
def trees(sim):
    cores(sim)
    r = rng(sim)
    online = sim.chance(0.5, 'online')
    tree = sim.pick(['ScenredTree', 'ScenredTree', 'QuantileTree'], 'tree')
    steps = sim.pick([3, 2, 4], 'steps')
    extra = sim.chance(0.25, 'additional node')
    lay = c04.layout(sim, steps, tree)
    with sim.quiet():
        np.random.seed(sim.subseed('jitter') % 2 ** 31)
        fit = dict(n_scen=10, random_state=1) if not online else {}
        gen = c04.fitted(r, steps, tree, lay, dict(additional_node=extra, online_tree_reduction=online, parallel_preds=True), **fit)
    n = sim.pick([3, 2, 5, 7], 'rows')
    x, q = c04.batch(r, n, steps, sim.pick(['2021-05-01', '2021-05-01 22:00'], 'start'), sim.pick(['1h', '5h'], 'spacing'))
    sim.describe('trees online={} {} steps={} rows={}'.format(online, tree, steps, n))
    if online:
        def call(o):
            return o.predict_trees(quantiles=q.copy(), n_scen=10, x=x.copy(), random_state=2)
    else:
        preds = pd.DataFrame(q[:, :, 4], index=x.index, columns=['y{}'.format(k) for k in range(steps)])

        def call(o):
            return o.predict_trees(predictions=preds.copy())
    drive(sim, Op('predict_trees', lambda: copy.deepcopy(gen), call, n, ray=not online))


# ------------------------------------------------------------------------------------------------ per-step models
def step_models(sim):
    cores(sim)
    r = rng(sim)
    case = models.draw(sim, ['hybrid', 'qrf', 'aware', 'hybrid', 'qrf'])
    with sim.quiet():
        x, y = models.data(case, r, 130)
        xt, _ = models.data(case, r, 12, start='2021-06-01 05:00')
    sim.describe(repr(case))
    fitting = sim.chance(0.5, 'fit')
    how = sim.pick(['predict', 'quantiles'], 'call')

    def ask(m):
        return m.predict(xt.copy()) if how == 'predict' else m.predict_quantiles(xt.copy())
    if fitting:
        def look(m, out):
            return m.predict(xt.copy()), m.predict_quantiles(xt.copy())
        op = Op('{}.fit'.format(case.family), lambda: models.build(case, parallel=True),
                lambda m: m.fit(x.copy(), y.copy()), max(case.kw.get('n_single', 1), 1), look=look)
    else:
        with sim.quiet():
            np.random.seed(sim.subseed('fit') % 2 ** 31)
            ready = models.build(case, parallel=False).fit(x.copy(), y.copy())
            ready.parallel = True
        n_tasks = case.kw['n_single'] if case.family == 'qrf' else case.steps - case.kw['n_single']
        op = Op('{}.{}'.format(case.family, how), lambda: copy.deepcopy(ready), ask, max(n_tasks, 1),
                kinds=TASK + ('start-failure',) if case.family == 'qrf' else ALL)
    drive(sim, op)


# ------------------------------------------------------------------------------------------------ tuning
def tuning(sim):
    from pyforecaster.forecasting_models.holtwinters import tune_hyperpars
    cores(sim)
    r = rng(sim)
    fam, s, targets = c06.draw(sim)
    s['verbose'] = False
    budget = sim.pick([3, 2, 5], 'budget')
    x = c06.frame(r, 60, targets, sim.pick([0, 1], 'covariates'))
    C = c06.classes()[fam]
    keys = c06.KEYS[fam]

    def look(m, out):
        pars = out if isinstance(out, dict) else out.get_params()
        got = {k: pars[k] for k in keys}
        return got if isinstance(out, dict) else (got, copy.deepcopy(out).predict(x.iloc[-20:].copy()).values)
    if sim.chance(0.5, 'fit'):
        sim.describe('{} fit {} budget {}'.format(fam, s, budget))
        op = Op('{}.fit'.format(fam), lambda: C(**dict(copy.deepcopy(s), optimization_budget=budget, optimize_hyperpars=True)),
                lambda m: m.fit(x.copy()) or m, budget, look=look, fresh=True)
    else:
        lims = {'alpha': [0.05, 0.95]}
        ret = sim.chance(0.5, 'return model')
        lims['gamma_1' if fam == 'hw' else 'omega'] = [0.05, 0.95]
        sim.describe('tune_hyperpars {} {} trials {} return {}'.format(fam, s, budget, ret))
        op = Op('tune_hyperpars', lambda: None,
                lambda m: tune_hyperpars(x.copy(), C, hyperpars=copy.deepcopy(lims), n_trials=budget, return_model=ret,
                                         parallel=True, model_init_kwargs=copy.deepcopy(s)), budget, look=look)
    drive(sim, op)


SCENARIOS = [('utilities', utilities, 4), ('features', features, 4), ('trees', trees, 3), ('step_models', step_models, 4),
             ('tuning', tuning, 3)]
