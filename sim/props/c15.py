"""C15: what the caller hands over is the same before and after every call, also failed calls, also beside other threads."""
import contextlib
import copy
import io

import numpy as np
import pandas as pd

from .. import fmt, models, seams
from ..compare import changed, fingerprint
from ..core import Discard, HarnessError, SimAbort, Violation
from ..gen import cores, draw_fault, mean_quantum, probe, rng, series

PROP = 'C15'
FAMILIES = ['linear', 'lgb', 'hybrid', 'qrf', 'aware', 'persistent', 'seasonal', 'rff', 'additive', 'brutal']
NEURAL = ['ffnn', 'nn', 'lstm']
PARALLEL = ('hybrid', 'qrf', 'aware')


def prepare():
    from . import c04, c06, c07
    models.warm(neural=True)
    c04.prepare()
    c06.prepare()
    c07.prepare()


# ------------------------------------------------------------------------------------------------- what is watched
class Watch:
    """everything handed over, with what it looked like"""
    def __init__(self, sim):
        self.sim, self.items = sim, []

    def __call__(self, name, v):
        if isinstance(v, (pd.DataFrame, pd.Series, pd.Index, np.ndarray, list, dict)):
            self.items.append((name, v, fingerprint(v)))
        return v

    def all(self, d, prefix=''):
        """a dictionary of keyword arguments: what is inside is handed over"""
        for k, v in d.items():
            self(prefix + str(k), v)
        return d

    def check(self, when):
        for name, v, fp in self.items:
            self.sim.compared += 1
            c = changed(v, fp)
            if c:
                raise Violation('input-changed', '{}: {}: {}'.format(when, name, c))


def dress(sim, w, name, df):
    """the same data in one of the layouts data come in; what it is a part of is watched, too"""
    how = sim.pick(['block', 'columns', 'part', 'fortran', 'single', 'mixed', 'named'], 'layout of ' + name)
    num = [c for c in df.columns if df[c].dtype.kind == 'f']
    if how == 'columns':
        df = pd.DataFrame({c: df[c].values.copy() for c in df.columns}, index=df.index)
    elif how == 'part':
        # rows of a bigger frame: shares its memory
        first, last = df.iloc[:4], df.iloc[-3:]
        big = pd.concat([first, df, last])
        if len(num) == df.shape[1]:
            big = pd.DataFrame(big.values.copy(), index=big.index, columns=big.columns)
        w('the frame {} is part of'.format(name), big)
        df = big.iloc[4:-3]
    elif how == 'fortran' and len(num) == df.shape[1]:
        df = pd.DataFrame(np.asfortranarray(df.values), index=df.index, columns=df.columns)
    elif how == 'single' and num:
        df = df.astype({c: np.float32 for c in num})
    elif how == 'mixed' and len(num) > 1:
        df = df.astype({num[-1]: np.float32})
    elif how == 'named':
        df = df.copy()
        df.index.name, df.columns.name = 'when', 'what'
    sim.describe('{}: {}'.format(name, how))
    return w(name, df)


def disturb_ctx(sim, parallel=False):
    """how the call is disturbed: (context, what to arm)"""
    mode = sim.pick(['none', 'none', 'line', 'line'] + (['worker'] if parallel else []), 'disturbance')
    if mode == 'line':
        line = 1 + (sim.choose(700, 'line') if sim.chance(0.6, 'late') else sim.choose(50, 'line'))
        cls = sim.pick([MemoryError, KeyboardInterrupt, ValueError, KeyError], 'class')
        sim.describe('{} at line {}'.format(cls.__name__, line))
        return seams.line_raiser(line, cls, 'interrupted'), mode
    if mode == 'worker':
        sim.armed.append(draw_fault(sim, 4))
    return contextlib.nullcontext(), mode


def step(sim, w, what, f, parallel=False, fails=()):
    """one call, disturbed or not; then everything has to be as it was"""
    ctx, mode = disturb_ctx(sim, parallel)
    sim.event('call', what, mode)
    sim.ops += 1
    err = out = None
    with seams.threaded(mean_quantum(sim)), contextlib.redirect_stdout(io.StringIO()):
        try:
            with ctx:
                out = f()
        except (HarnessError, Violation, Discard, SimAbort):
            raise
        except BaseException as e:   # noqa
            err = e
    sim.armed.clear()
    w.check('after {}{}'.format(what, '' if err is None else ' which failed ({})'.format(type(err).__name__)))
    if err is None:
        return out, None
    if mode == 'none' and not isinstance(err, tuple(fails)):
        if isinstance(err, KeyboardInterrupt):
            raise err
        # whether the call may fail is not the question here
        probe(sim, 'calls that failed undisturbed: {} {} {}'.format(what.split(' ')[0], type(err).__name__, str(err)[:80]))
    else:
        probe(sim, 'calls that failed')
    return None, err


def retry(sim, w, f):
    with sim.quiet(), contextlib.redirect_stdout(io.StringIO()):
        try:
            f()
        except (HarnessError, Violation, Discard, SimAbort):
            raise
        except Exception as e:   # noqa
            probe(sim, 'calls that failed undisturbed: fit again {}'.format(type(e).__name__))
    w.check('after fitting again')


# ------------------------------------------------------------------------------------------------- forecasters
def construct(sim, w, case):
    kw = copy.deepcopy(case.kw)
    if case.fkind:
        f = models.formatter(case)
        f.transform(models.raw(np.random.default_rng(0), 80, '2021-01-01'), time_features=False)
        kw['formatter'] = f
        if sim.chance(0.3, 'metadata features'):
            kw['metadata_features'] = ['force_off'] if case.family == 'aware' else []
    if case.family != 'brutal' and case.steps > 1 and sim.chance(0.5, 'layout at construction'):
        v = np.minimum(2 ** np.arange(case.steps), 4)
        kw['nodes_at_step'] = v if sim.chance(0.5, 'array') else [int(i) for i in v]
        if sim.chance(0.3, 'prefitted trees') and case.family not in NEURAL:
            kw.update(online_tree_reduction=False, n_scen_fit=15)
    if case.family != 'brutal' and sim.chance(0.4, 'quantiles at construction'):
        q = [0.05, 0.3, 0.5, 0.9]
        kw['q_vect'] = np.array(q) if sim.chance(0.5, 'array') else q
    if case.family not in ('brutal', 'persistent', 'seasonal') and sim.chance(0.2, 'additional node'):
        kw['additional_node'] = True
    return models.cls(case)(**w.all(kw, 'constructor argument '))


def question(sim, w, case, m, xt):
    """one forecast asked; arguments handed over are watched"""
    kinds = ['predict', 'quantiles', 'scenarios', 'trees']
    if case.family == 'brutal':
        kinds = ['predict']
    if case.steps < 2:
        kinds = [k for k in kinds if k != 'trees']
    kind = sim.pick(kinds, 'kind')
    kw = {}
    if kind == 'quantiles' and case.family not in models.NEURAL:
        kw['dataframe'] = sim.chance(0.5, 'frame')
        if case.family == 'qrf' and sim.chance(0.6, 'asked quantiles'):
            q = sim.pick([[0.8, 0.2], [0.5], [0.1, 0.5, 0.9]], 'q')
            kw['quantiles'] = list(q) if sim.chance(0.5, 'list') else np.array(q)
    if kind in ('predict', 'quantiles') and case.fkind and case.family in PARALLEL and sim.chance(0.4, 'period'):
        kw['period'] = '24h'
    if kind in ('scenarios', 'trees'):
        kw.update(random_state=sim.choose(4, 'random state'), n_scen=sim.pick([12, 9], 'scenarios'))
        if sim.chance(0.3, 'initial observations'):
            kw['init_obs'] = np.arange(len(xt)) * 1.0
    if kind == 'trees' and m.scengen.online_tree_reduction:
        v = np.minimum(2 ** np.arange(case.steps), 4)
        kw['nodes_at_step'] = v if sim.chance(0.5, 'array') else [int(i) for i in v]
    n = len(w.items)
    w.all(kw, 'argument ')
    call = dict(predict=m.predict, quantiles=getattr(m, 'predict_quantiles', None), scenarios=getattr(m, 'predict_scenarios', None),
                trees=getattr(m, 'predict_trees', None))[kind]
    step(sim, w, '{} {}'.format(kind, {k: v for k, v in kw.items()}), lambda: call(xt, **kw), case.family in PARALLEL and m.parallel)
    del w.items[n:]


def forecasters(sim, families=FAMILIES):
    cores(sim)
    case = models.draw(sim, families)
    sim.describe(repr(case))
    w = Watch(sim)
    r = rng(sim)
    x, y = models.data(case, r, sim.pick([110, 150], 'rows'))
    xt = models.data(case, r, 40, start='2021-06-01 05:00')[0].iloc[:5]
    if case.cat and sim.chance(0.5, 'category dtype'):
        x['kind'], xt['kind'] = pd.Categorical(x['kind']), pd.Categorical(xt['kind'])
    if sim.chance(0.3, 'more than numbers') and not case.fkind and case.family in ('linear', 'qrf', 'lgb', 'hybrid'):
        x['flag'], xt['flag'] = r.random(len(x)) < 0.5, r.random(len(xt)) < 0.5
        x['count'], xt['count'] = r.integers(0, 5, len(x)), r.integers(0, 5, len(xt))
    x, y, xt = dress(sim, w, 'x', x), dress(sim, w, 'y', y), dress(sim, w, 'the rows asked about', xt)
    with sim.quiet():
        m = construct(sim, w, case)
    for k in range(sim.between(1, 2, 'fits')):
        if case.family in PARALLEL:
            m.parallel = sim.chance(0.4, 'parallel')
            n = len(w.items)
        _, e = step(sim, w, 'fit', lambda: models.fit(m, case, x, y), case.family in PARALLEL and m.parallel)
        if e is not None and sim.chance(0.8, 'once more'):
            retry(sim, w, lambda: models.fit(m, case, x, y))
        for _ in range(sim.between(1, 3, 'questions')):
            if case.family in PARALLEL:
                m.parallel = sim.chance(0.4, 'parallel')
            question(sim, w, case, m, sim.pick([xt, xt, x.iloc[3:9]], 'about'))
    if sim.chance(0.3, 'parameters read'):
        step(sim, w, 'get_params', lambda: m.get_params())


def neural(sim):
    """neural forecasters, the input-convex one and its optimisation included"""
    if sim.chance(0.6, 'plain'):
        return forecasters(sim, NEURAL)
    from pyforecaster.forecasting_models.neural_models import ICNN
    cores(sim)
    r = rng(sim)
    w = Watch(sim)
    steps = 2
    case = models.Case(family='linear', kw={}, steps=steps, fkind=None, cat=False, n_feat=4)
    x, y = models.data(case, r, 90)
    fam = sim.pick(['PICNN', 'PIQCNN'], 'network')
    kw = dict(n_out=steps, n_layers=2, n_hidden_x=6, n_epochs=1, batch_size=40, stats_step=50, optimization_vars=['f2', 'f3'])
    if sim.chance(0.4, 'raw columns'):
        kw['unnormalized_inputs'] = ['f1']
    sim.describe('{} {}'.format(fam, kw))
    x, y = dress(sim, w, 'x', x), dress(sim, w, 'y', y)
    m = getattr(ICNN, fam)(**w.all(kw, 'constructor argument '))
    _, e = step(sim, w, 'fit', lambda: m.fit(x, y))
    if e is not None:
        retry(sim, w, lambda: m.fit(x, y))
    for _ in range(sim.between(1, 2, 'questions')):
        kind = sim.pick(['predict', 'optimize', 'quantiles'], 'kind')
        rows = w('the rows asked about', x.iloc[5:6] if kind == 'optimize' else x.iloc[5:9])
        if kind == 'optimize':
            step(sim, w, 'optimize', lambda: m.optimize(rows, lambda yh, u: (yh ** 2).sum(), n_iter=20))
        else:
            step(sim, w, kind, lambda: (m.predict if kind == 'predict' else m.predict_quantiles)(rows))


def shared(sim):
    """several forecasters fitted on and asked about the same frames in their own threads; some calls fail"""
    cores(sim)
    w = Watch(sim)
    r = rng(sim)
    steps = sim.pick([2, 3], 'steps')
    base = models.Case(family='linear', kw={}, steps=steps, fkind=None, cat=sim.chance(0.4, 'categories'), n_feat=3)
    x, y = models.data(base, r, 120)
    xt = models.data(base, r, 40, start='2021-06-01 05:00')[0].iloc[:4]
    nodes = w('the layout shared', np.minimum(2 ** np.arange(steps), 4))
    q = w('the quantiles shared', np.array([0.1, 0.5, 0.9]))
    x, y, xt = dress(sim, w, 'x', x), dress(sim, w, 'y', y), dress(sim, w, 'the rows asked about', xt)
    fams = ['linear', 'qrf'] if base.cat else ['linear', 'lgb', 'hybrid', 'qrf', 'persistent', 'rff']
    jobs = []
    for i in range(sim.between(2, 3, 'threads')):
        case = models.draw(sim, fams, formatters=False)
        case.steps, case.cat, case.n_feat = steps, base.cat, 3
        case.kw['q_vect'], case.kw['nodes_at_step'] = q, nodes
        if case.family == 'hybrid':
            case.kw['n_single'] = 1
        if case.family == 'qrf':
            case.kw['n_single'] = 0
        if case.family == 'persistent':
            case.kw['n_sa'] = steps
        fault = None
        if sim.chance(0.3, 'interrupted'):
            fault = 1 + sim.choose(300, 'line'), sim.pick([MemoryError, ValueError], 'class')
        kinds = [sim.pick(['predict', 'quantiles', 'scenarios', 'trees'], 'kind') for _ in range(sim.between(1, 2, 'questions'))]
        sim.describe('{!r}: {}{}'.format(case, kinds, '' if fault is None else ' interrupted at line {}'.format(fault[0])))
        jobs.append((case, fault, kinds))

    def run(case, fault, kinds):
        m = models.cls(case)(**case.kw)
        if case.family in PARALLEL:
            m.parallel = False

        def body():
            models.fit(m, case, x, y)
            for k in kinds:
                if k == 'predict':
                    m.predict(xt)
                elif k == 'quantiles':
                    m.predict_quantiles(xt)
                elif k == 'scenarios':
                    m.predict_scenarios(xt, n_scen=9, random_state=1)
                else:
                    m.predict_trees(xt, n_scen=9, random_state=1, nodes_at_step=nodes)
        if fault is None:
            body()
        else:
            n = [0]

            def counted(what):
                n[0] += 1
            body_raising(sim, m, fault, body)
    got = seams.concurrently([lambda j=j: run(*j) for j in jobs], mean_quantum=mean_quantum(sim))
    for (case, fault, kinds), (_, e) in zip(jobs, got):
        sim.ops += 1 + len(kinds)
        if e is not None:
            probe(sim, 'calls that failed' if fault else 'calls that failed undisturbed: shared {!r}'.format(e)[:120])
    w.check('after the threads')


def body_raising(sim, m, fault, body):
    """in a scheduled thread the trace function belongs to the scheduler: fail in a method of the forecaster instead"""
    line, cls = fault
    names = ['train_val_split', 'predict', 'predict_quantiles', 'anti_transform', '_predict_quantiles']
    names = [n for n in names if hasattr(m, n)]
    name = names[line % len(names)]
    real = getattr(m, name)
    after = line % 2

    def failing(*a, **k):
        out = real(*a, **k) if after else None
        sim.fault('call-raise')
        raise seams.injected(cls)
    setattr(m, name, failing)
    body()


# ------------------------------------------------------------------------------------------------- formatter
class MeanEncoder:
    def __init__(self, cols):
        self.cols = cols

    def fit(self, x, y):
        self.means = pd.Series(np.asarray(y)).groupby(np.asarray(x).ravel()).mean()
        return self

    def transform(self, x):
        return pd.DataFrame({'v': pd.Series(np.asarray(x).ravel()).map(self.means).values}, index=x.index)


def formatting(sim):
    cores(sim)
    r = rng(sim)
    w = Watch(sim)
    dt = sim.pick(fmt.FREQS, 'sampling')
    cols = ['a', 'b', 'c'][:sim.between(1, 3, 'columns')]
    spec = fmt.draw_spec(sim, cols, dt, causal=False)
    n = sim.pick([120, 160], 'rows')
    x = fmt.signals(r, n, cols, dt, tz=sim.pick([None, 'Europe/Zurich'], 'tz'), ints=sim.chance(0.3, 'integers'))
    if sim.chance(0.3, 'gaps in the data'):
        x = x.astype(float)
        x.iloc[7:9, 0] = np.nan
    x = dress(sim, w, 'x', x)
    sim.describe(fmt.describe(spec))
    from pyforecaster.formatter import Formatter
    f = Formatter(augment=spec['augment'], n_parallel=sim.pick([None, 2], 'n_parallel'))
    arr, bins = sim.chance(0.5, 'lags as arrays'), sim.chance(0.5, 'bins as arrays')
    for part, add in (('transformers', f.add_transform), ('targets', f.add_target_transform)):
        for t in spec[part]:
            kw = {k: (list(v) if isinstance(v, list) else v) for k, v in t.items() if k != 'nested'}
            if arr and kw['lags'] is not None:
                kw['lags'] = np.array(kw['lags'])
            if bins and kw['agg_bins'] is not None:
                kw['agg_bins'] = np.array(kw['agg_bins'])
            if part == 'transformers':
                kw['nested'] = t['nested']
            add(**w.all(kw, '{} '.format(part)))
    for t in spec['normalizers']:
        f.add_target_normalizer(**w.all(t, 'normalizer '))
    if spec.get('norm'):
        f.add_normalizing_fun(*spec['norm'])
    w.check('after configuring')
    box = [None, None]

    def transform(parallel):
        kw = dict(time_features=sim.chance(0.5, 'time features'), holidays=sim.chance(0.3, 'holidays'), parallel=parallel,
                  return_target=not sim.chance(0.2, 'no target'))
        if kw['holidays'] and sim.chance(0.5, 'prov'):
            kw['prov'] = sim.pick(['ZH', 'TI'], 'prov')
        out, e = step(sim, w, 'transform {}'.format(kw), lambda: f.transform(x, **kw), parallel)
        if e is None:
            box[0], box[1] = w('features', out[0]), w('targets', out[1])
    transform(sim.chance(0.5, 'parallel'))
    ops = ['transform', 'folds', 'lims', 'prune', 'rename', 'denormalize', 'window', 'encode', 'simulate', 'calendar', 'normalize']
    for _ in range(sim.between(1, 5, 'calls')):
        op = sim.pick(ops, 'operation')
        if op == 'transform':
            transform(sim.chance(0.5, 'parallel'))
        elif op == 'folds':
            ti = w('the times', (x if box[0] is None else box[0]).index)
            kw = dict(n_k=sim.pick([2, 4], 'folds'), multiplier_factor=1)
            step(sim, w, 'time_kfcv', lambda: list(f.time_kfcv(ti, x=x, **kw)))
        elif op == 'lims':
            step(sim, w, 'get_time_lims', lambda: f.get_time_lims(include_target=True))
        elif op == 'window':
            part = w('a window', x.iloc[20:])
            step(sim, w, 'transform of a window', lambda: f.transform(part, time_features=False))
        elif op == 'simulate':
            step(sim, w, '_simulate_transform', lambda: f._simulate_transform(x))
        elif op == 'calendar':
            step(sim, w, 'add_time_features', lambda: f.add_time_features(x))
            step(sim, w, 'add_holidays', lambda: f.add_holidays(x))
        elif op == 'encode':
            k = w('the training rows', pd.DataFrame({'v': r.integers(0, 4, 30), 'z': r.standard_normal(30)}))
            t = w('the test rows', pd.DataFrame({'v': r.integers(0, 4, 9), 'z': r.standard_normal(9)}))
            cf = w('the categorical columns', sim.pick(['v', ['v']], 'columns'))
            step(sim, w, 'cat_encoding', lambda: f.cat_encoding(k, t, 'z', MeanEncoder, cf))
        elif box[0] is not None:
            xx, yy = box
            if op == 'prune':
                md = w('the metadata features', [xx.columns[0]] if sim.chance(0.5, 'some') else [])
                kw = dict(period='24h', tol_period='1h', keep_last_n_lags=sim.pick([0, 2], 'lags'), keep_last_seconds=sim.pick([0, 7200], 's'))
                step(sim, w, 'prune_dataset_at_stepahead', lambda: f.prune_dataset_at_stepahead(
                    xx, 0, md, method=sim.pick(['periodic', 'up_to'], 'method'), **kw))
            elif op == 'rename':
                step(sim, w, 'rename_features_prediction_time', lambda: f.rename_features_prediction_time(xx, 1))
            elif op == 'denormalize' and yy is not None and spec.get('norm'):
                if sim.chance(0.5, 'of quantiles'):
                    z = pd.concat({q: yy + q for q in (0.1, 0.5, 0.9)}, axis=1).swaplevel(axis=1).sort_index(axis=1)
                    step(sim, w, 'denormalize', lambda: f.denormalize(xx, w('the quantiles', z)))
                else:
                    step(sim, w, 'denormalize', lambda: f.denormalize(xx, yy))
            elif op == 'normalize' and yy is not None and spec.get('norm'):
                step(sim, w, 'normalize', lambda: f.normalize(xx, yy))


def global_form(sim):
    from . import c03
    cores(sim)
    r = rng(sim)
    w = Watch(sim)
    dt = sim.pick(fmt.FREQS, 'sampling')
    sig = ['s{}'.format(i) for i in range(sim.between(1, 4, 'signals'))]
    shared_cols = ['sa', 'sb'][:sim.between(0, 2, 'shared columns')]
    spec = c03.global_spec(sim, dt, shared_cols)
    multi = sim.chance(0.4, 'two levels')
    x = fmt.signals(r, 55, sig + shared_cols, dt, tz=sim.pick([None, 'Europe/Zurich'], 'tz'), ints=sim.chance(0.3, 'integer signals'))
    if multi:
        flat = x
        x = pd.concat([flat[[s]].rename(columns={s: 'power'}) for s in sig] + ([flat[shared_cols]] if shared_cols else []), axis=1,
                      keys=sig + (['shared'] if shared_cols else []))
    x = w('x', x) if multi else dress(sim, w, 'x', x)
    sim.describe('{} signals {}'.format(len(sig), fmt.describe(spec)))
    f = fmt.build(spec)
    for _ in range(sim.between(1, 2, 'calls')):
        kw = dict(time_features=sim.chance(0.5, 'time features'), holidays=sim.chance(0.2, 'holidays'), parallel=sim.chance(0.6, 'parallel'),
                  reduce_memory=not sim.chance(0.4, 'keep dtypes'), corr_reorder=sim.chance(0.3, 'corr_reorder'))
        step(sim, w, 'transform {}'.format(kw), lambda: f.transform(x, global_form=True, **kw), kw['parallel'])


# ------------------------------------------------------------------------------------------------- adaptive forecasters, tuning
def adaptive(sim):
    from . import c06
    cores(sim)
    r = rng(sim)
    w = Watch(sim)
    fam = sim.pick(['hw', 'fourier', 'kalman', 'multi', 'hwmulti'], 'family')
    targets = ['y', 'z'] if sim.chance(0.4, 'two targets') and fam not in ('multi', 'hwmulti') else ['y']
    tune = sim.chance(0.5, 'tune')
    s = dict(target_name='y', n_sa=sim.pick([2, 3], 'steps'), verbose=False, optimize_hyperpars=tune, optimization_budget=2)
    if len(targets) > 1 and tune:
        s['targets_names'] = list(targets)
    if fam in ('hw', 'hwmulti'):
        s['periods'] = [4, 8] if sim.chance(0.5, 'list') else np.array([4, 8])
        if sim.chance(0.4, 'constraints') and fam == 'hw':
            s['constraints'] = [-5.0, 50.0] if sim.chance(0.5, 'list') else np.array([-5.0, 50.0])
    else:
        s['m'] = 10
    if fam in ('multi', 'hwmulti'):
        s['optimize_submodels_hyperpars'] = tune
    if fam == 'multi':
        s.update(base_predictor=c06.classes()[sim.pick(['fourier', 'kalman'], 'base')], n_predictors=2)
        if sim.chance(0.4, 'own values'):
            s.update(alphas=np.array([0.7, 0.9]), omegas=np.array([0.98, 0.99]), ns_harmonics=np.array([3, 4]))
            if sim.chance(0.5, 'lists'):
                s.update({k: s[k].tolist() for k in ('alphas', 'omegas', 'ns_harmonics')})
        if sim.chance(0.3, 'parameters of the submodels'):
            s['submodels_pars'] = [dict(alpha=0.5, target_name='y'), dict(alpha=0.9, target_name='y')]
    if fam == 'hwmulti':
        if sim.chance(0.5, 'horizons'):
            s['models_periods'] = np.array([1, s['n_sa']])
        if sim.chance(0.4, 'own values') and not tune:
            k = 2 if 'models_periods' in s else s['n_sa']
            s.update(alphas=np.full(k, 0.3), gammas_1=np.full(k, 0.1), gammas_2=np.full(k, 0.1))
    if sim.chance(0.4, 'quantiles'):
        s['q_vect'] = np.array([0.1, 0.5, 0.9])
    if sim.chance(0.4, 'layout'):
        s['nodes_at_step'] = np.minimum(2 ** np.arange(s['n_sa']), 2)
    x = dress(sim, w, 'x', c06.frame(r, 90, targets, sim.pick([0, 1], 'covariates')))
    sim.describe('{} {}'.format(fam, {k: v for k, v in s.items() if k != 'base_predictor'}))
    np.random.seed(sim.subseed('global') % 2 ** 31)
    m = c06.classes()[fam](**w.all(s, 'constructor argument '))
    for k in range(sim.between(1, 2, 'fits')):
        past = w('the past', x.iloc[:70])
        _, e = step(sim, w, 'fit', lambda: m.fit(past, past), tune)
        if e is not None:
            m.optimize_hyperpars = False
            retry(sim, w, lambda: m.fit(past, past))
        for _ in range(sim.between(1, 2, 'questions')):
            kind = sim.pick(['predict', 'quantiles', 'scenarios', 'states'], 'kind')
            rows = w('the rows asked about', x.iloc[70:80])
            if kind == 'predict':
                step(sim, w, kind, lambda: m.predict(rows))
            elif kind == 'quantiles':
                step(sim, w, kind, lambda: m.predict_quantiles(rows))
            elif kind == 'scenarios':
                step(sim, w, kind, lambda: m.predict_scenarios(rows, n_scen=9, random_state=1))
            elif fam == 'hw':
                st, e = step(sim, w, 'get states', lambda: m._get_internal_states() if hasattr(m, '_get_internal_states') else None)
    if sim.chance(0.2, 'tuned directly') and fam in ('hw', 'fourier', 'kalman'):
        from pyforecaster.forecasting_models.holtwinters import tune_hyperpars
        kw = copy.deepcopy(s)
        kw.update(targets_names=list(targets) if len(targets) > 1 else None)
        lims = {'alpha': [0.3, 0.6]}
        w('the parameters', kw)
        w('the ranges', lims)
        par, ret = sim.chance(0.6, 'parallel'), sim.chance(0.5, 'model')
        step(sim, w, 'tune_hyperpars', lambda: tune_hyperpars(x, c06.classes()[fam], lims, n_trials=2, return_model=ret, parallel=par,
                                                              model_init_kwargs=kw), True)


# ------------------------------------------------------------------------------------------------- cross-validation and searches
def validation(sim):
    import optuna
    from pyforecaster.metrics import crps, make_scorer, nmae, rmse
    from pyforecaster.trainer import base_storage_fun, cross_validate, hyperpar_optimizer, retrieve_cv_results
    from . import c07
    cores(sim)
    w = Watch(sim)
    s = c07.draw(sim)
    x, y = c07.draw_data(sim, s)
    x, y = dress(sim, w, 'x', x), dress(sim, w, 'y', y)
    folds, how, pos = c07.draw_folds(sim, x)
    if 'generator' in how:
        folds = [(a, b) for a, b in pos]
        if sim.chance(0.5, 'plain lists'):
            folds = [(list(a), list(b)) for a, b in pos]
    if not isinstance(folds, int):
        w('the folds', folds)
    script = c07.draw_trials(sim, s, sim.between(1, 3, 'trials'))
    w('the parameters of the trials', script)
    metric = c07.draw_metric(sim, s)
    f = c07.metric_of('nmae' if metric == 'default' else metric)
    cv_type = sim.pick(['full', 'random_fold'], 'cv')
    np.random.seed(sim.subseed('global') % 2 ** 31)
    with sim.quiet():
        model = c07.new(s)
        before = w('the settings of the forecaster', {k: v for k, v in model.get_params(deep=False).items() if k != 'steps' and
                                                      isinstance(v, (int, float, str, list, dict, np.ndarray, type(None)))})
    for _ in range(sim.between(1, 2, 'calls')):
        if sim.chance(0.5, 'search'):
            k = [0]

            def space(trial):
                p = script[trial.number % len(script)]
                return p if sim.chance(0.5, 'the dictionary itself') else dict(p)
            kw = {} if metric == 'default' else {'metric': f}
            out, e = step(sim, w, 'hyperpar_optimizer {}'.format(cv_type), lambda: hyperpar_optimizer(
                x, y, model, n_trials=len(script), cv=folds, param_space_fun=space, cv_type=cv_type,
                sampler=optuna.samplers.RandomSampler(seed=3), storage_fun=base_storage_fun, **kw), 'parallel' in s.kw)
        elif not isinstance(folds, int):
            scoring = w('the scorers', {'one': make_scorer(f), 'two': make_scorer(rmse)})
            step(sim, w, 'cross_validate {}'.format(cv_type), lambda: cross_validate(
                x, y, model, folds, scoring=scoring if sim.chance(0.5, 'several') else scoring['one'], cv_type=cv_type,
                storage_fun=base_storage_fun), 'parallel' in s.kw)
    now = {k: v for k, v in model.get_params(deep=False).items() if k in before}
    c = changed(now, fingerprint(before))
    if c:
        raise Violation('input-changed', 'the settings of the forecaster handed over: {}'.format(c))


# ------------------------------------------------------------------------------------------------- pieces used on their own
def pieces(sim):
    """tree builders, scenario generator, copula, metrics, parallel utilities and reconciliation on data of the caller"""
    cores(sim)
    r = rng(sim)
    w = Watch(sim)
    kind = sim.pick(['builder', 'scengen', 'parallel', 'metrics', 'reconciliation'], 'piece')
    sim.describe(kind)
    if kind == 'builder':
        from pyforecaster import tree_builders as T
        which = sim.pick(['ScenredTree', 'QuantileTree', 'ScenredTree', 'NeuralGas', 'DiffTree'], 'builder')
        scens = w('the scenarios', np.cumsum(r.standard_normal((3, 8)), axis=0))
        v = sim.pick([[1, 2, 4], [1, 1, 2], [2, 2, 4]], 'layout')
        nodes = w('the layout', np.array(v) if sim.chance(0.5, 'array') else v)
        b = getattr(T, which)(nodes_at_step=nodes) if sim.chance(0.5, 'at construction') else getattr(T, which)()
        kw = dict(do_plot=False, k_max=3) if which in ('NeuralGas', 'DiffTree') else {}
        sim.describe('{} {}'.format(which, v))
        out, e = step(sim, w, 'gen_tree', lambda: b.gen_tree(scens, nodes_at_step=nodes, **kw))
        if e is None and which != 'QuantileTree':
            step(sim, w, 'gen_tree again', lambda: b.gen_tree(scens, nodes_at_step=nodes, **kw))
    elif kind == 'scengen':
        from . import c04
        steps = sim.pick([3, 2], 'steps')
        tree = sim.pick(['ScenredTree', 'QuantileTree'], 'tree')
        from pyforecaster.scenarios_generator import ScenGen
        nodes = w('the layout', np.minimum(2 ** np.arange(steps), 4))
        e_ = dress(sim, w, 'the errors', c04.errs(r, 8, steps))
        xx = w('the covariates', pd.DataFrame(index=e_.index, data={'c': r.standard_normal(len(e_))}))
        kw = dict(tree_type=tree, online_tree_reduction=sim.chance(0.6, 'online'), nodes_at_step=nodes,
                  additional_node=sim.chance(0.3, 'node'), parallel_preds=sim.chance(0.5, 'parallel'))
        sim.describe('{}'.format(kw))
        g = ScenGen(**w.all(kw, 'constructor argument '))
        _, err = step(sim, w, 'fit', lambda: g.fit(e_, xx, n_scen=12))
        if err is not None:
            return
        k = 3
        p = w('the predictions', e_.iloc[:k].copy() + 5)
        q = w('the quantiles', np.sort(r.standard_normal((k, steps, len(g.q_vect))), axis=2))
        init = w('the initial observations', np.arange(k) * 1.0)
        for _ in range(sim.between(1, 2, 'questions')):
            if sim.chance(0.5, 'scenarios'):
                step(sim, w, 'predict_scenarios', lambda: g.predict_scenarios(q, n_scen=9, x=p, init_obs=init, random_state=1))
            else:
                nk = {'nodes_at_step': nodes} if kw['online_tree_reduction'] else {}
                step(sim, w, 'predict_trees', lambda: g.predict_trees(predictions=p, quantiles=q, n_scen=9, x=p, init_obs=init,
                                                                      random_state=1, **nk), kw['parallel_preds'])
    elif kind == 'parallel':
        from pyforecaster.big_data_utils import fdf_parallel, mapper, reduce_mem_usage
        from . import c01
        df = dress(sim, w, 'the frame', pd.DataFrame(r.standard_normal((23, 4)), columns=list('abcd')))
        what = sim.pick(['fdf', 'fdf list', 'mapper', 'memory'], 'what')
        ray = sim.chance(0.5, 'ray')
        if what == 'fdf':
            step(sim, w, 'fdf_parallel', lambda: fdf_parallel(c01.row_center, df, n_splits=3, axis=0, use_ray=ray), True)
        elif what == 'fdf list':
            dfs = w('the list', [df.iloc[:9], df.iloc[9:]])
            step(sim, w, 'fdf_parallel of a list', lambda: fdf_parallel(c01.row_center, dfs, use_ray=ray), True)
        elif what == 'mapper':
            pars = w('the parameters', [1.0, 2.5, 3.0])
            extra = w('the other argument', np.arange(3.0))
            step(sim, w, 'mapper', lambda: mapper(c01.f_mix, pars, 2, b=3), True)
        else:
            step(sim, w, 'reduce_mem_usage', lambda: reduce_mem_usage(df, use_ray=ray), True)
    elif kind == 'metrics':
        from pyforecaster import metrics as M
        case = models.Case(family='linear', kw={}, steps=3, fkind=None, cat=False, n_feat=3)
        x, y = models.data(case, r, 60)
        t = dress(sim, w, 'the truth', y)
        h = dress(sim, w, 'the forecasts', y + r.standard_normal(y.shape))
        alphas = w('the levels', np.array([0.1, 0.5, 0.9]))
        qs = w('the quantiles', pd.concat({a: y + a for a in alphas}, axis=1))
        qa = w('the quantile array', np.dstack([y.values + a for a in alphas]))
        agg = w('the groups', pd.Series(np.arange(60) % 3, index=y.index))
        for _ in range(sim.between(1, 3, 'scores')):
            name = sim.pick(['rmse', 'nmae', 'mape', 'crps', 'quantile_scores', 'reliability', 'err', 'squerr', 'summary_score'], 'score')
            f = getattr(M, name)
            if name in ('crps', 'quantile_scores', 'reliability'):
                q = sim.pick([qs, qa], 'form')
                step(sim, w, name, lambda: f(q, t, alphas=alphas, agg_index=sim.pick([None, agg], 'groups')))
            else:
                kw = {} if name in ('err', 'squerr') else dict(agg_index=sim.pick([None, agg], 'groups'))
                step(sim, w, name, lambda: f(h, t, **kw))
    else:
        from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation
        from pyforecaster.forecaster import LinearForecaster
        hier = w('the hierarchy', {'top': ['l', 'r'], 'l': ['b0', 'b1'], 'r': ['b2', 'b3']})
        n = 60
        idx = pd.date_range('2021-03-01', periods=n, freq='1h')
        xs, ys = [], []
        b = {k: r.standard_normal(n) + i for i, k in enumerate(['b0', 'b1', 'b2', 'b3'])}
        b['l'], b['r'] = b['b0'] + b['b1'], b['b2'] + b['b3']
        b['top'] = b['l'] + b['r']
        for k, v in b.items():
            d = pd.DataFrame({'lag': np.roll(v, 1), 'hour': idx.hour * 1.0, 'name': k}, index=idx)
            xs.append(d)
            ys.append(pd.DataFrame({'t0': v, 't1': np.roll(v, -1)}, index=idx))
        x, y = dress(sim, w, 'x', pd.concat(xs)), dress(sim, w, 'y', pd.concat(ys))
        q = w('the quantile levels', np.array([0.1, 0.5, 0.9]))
        m = HierarchicalReconciliation(hier, method=sim.pick(['minT', 'dummy', 'minT'], 'method'), n_scenarios=5, q_vect=q,
                                       scenario_generation_method=sim.pick(['unconditional', 'scengen'], 'scenarios'))
        _, e = step(sim, w, 'fit', lambda: m.fit(x, y))
        if e is None:
            rows = w('the rows asked about', x[x.index < idx[6]])
            for what in (sim.pick(['predict', 'predict_quantiles', 'predict_scenarios'], 'question'),):
                step(sim, w, what, lambda: getattr(m, what)(rows, method=sim.pick(['reconciled', 'vanilla'], 'kind')))


SCENARIOS = [('forecasters', forecasters, 8), ('shared', shared, 4), ('formatting', formatting, 6), ('global_form', global_form, 3),
             ('adaptive', adaptive, 4), ('validation', validation, 5), ('pieces', pieces, 5), ('neural', neural, 2)]
