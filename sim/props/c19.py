"""C19: input-convex networks stay convex, and optimising through them is a pure read of the network as it is."""
import contextlib
import copy
import io
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import child, models, seams
from ..core import HarnessError, SimAbort, Violation
from ..gen import attempt, cores, mean_quantum, probe, require, rng, same

PROP = 'C19'
RT, AT = 2e-3, 2e-3
COLS = ['a', 'b', 'c', 'd']


def prepare():
    models.warm(neural=True)
    child.start()
    from pyforecaster.forecasting_models.neural_models import ICNN   # noqa


# objectives: (name, function of forecasts and optimisation variables)
def near_zero(yh, u):
    return (yh ** 2).sum() + 0.1 * (u ** 2).sum()


def small_moves(yh, u):
    return yh.sum() + ((u - 0.5) ** 2).sum()


def tracking(yh, u, target=1.0):
    return ((yh - target) ** 2).sum() + 0.05 * (u ** 2).sum()


OBJECTIVES = {'near_zero': near_zero, 'small_moves': small_moves, 'tracking': tracking}


class Net:
    def __init__(self, sim):
        self.fam = sim.pick(['PICNN', 'PICNN', 'PIQCNNSigmoid', 'RecStablePICNN'], 'network')
        self.steps = sim.pick([2, 1, 3], 'steps')
        self.vars = sim.pick([['c', 'd'], ['d'], ['a', 'c', 'd'], ['d', 'b']], 'optimisation variables')
        self.kw = dict(n_out=self.steps, n_layers=sim.pick([2, 3], 'layers'), n_hidden_x=6, n_latent=sim.pick([4, 1], 'latent'),
                       n_epochs=sim.pick([2, 1, 4], 'epochs'), batch_size=sim.pick([40, 20], 'batch'),
                       stats_step=sim.pick([2, 50, 3], 'stats step'), learning_rate=sim.pick([0.1, 0.02], 'learning rate'),
                       optimization_vars=list(self.vars), inverter_learning_rate=sim.pick([0.1, 0.03], 'inverter'),
                       augment_ctrl_inputs=self.fam == 'PICNN' and sim.chance(0.2, 'augmented'),
                       init_type=sim.pick(['normal', 'uniform'], 'init'))
        if self.fam == 'PICNN' and sim.chance(0.2, 'probabilistic'):
            self.kw.update(probabilistic=True, n_latent=1)
            self.kw['normalize_target'] = False
        elif sim.chance(0.2, 'target as it is'):
            self.kw['normalize_target'] = False
        if sim.chance(0.3, 'raw columns'):
            self.kw['unnormalized_inputs'] = [sim.pick(['a', 'd'], 'raw')]
        sim.describe('{} {}'.format(self.fam, self.kw))

    def build(self, **kw):
        from pyforecaster.forecasting_models.neural_models import ICNN
        return getattr(ICNN, self.fam)(**copy.deepcopy(dict(self.kw, **kw)))

    def data(self, r, n=120):
        idx = pd.date_range('2021-03-01', periods=n, freq='1h')
        x = pd.DataFrame(r.standard_normal((n, 4)), index=idx, columns=COLS)
        # concave and falling in what the network has to be convex or rising in
        y = {}
        for k in range(self.steps):
            y['y{}'.format(k)] = -2 * x['d'] ** 2 - np.abs(x['c']) - x['d'] * (k + 1) + x['a'] + 0.1 * r.standard_normal(n)
        return x, pd.DataFrame(y, index=idx)


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def failing(f):
    try:
        f()
    except (HarnessError, Violation, SimAbort):
        raise
    except BaseException as e:   # noqa
        return e


def shape(sim, net, m, r, when):
    """convexity, or monotony, of the forecasts in the optimisation variables"""
    n = 60
    x = pd.DataFrame(r.standard_normal((n, 4)), columns=COLS)
    u, v = r.uniform(-4, 4, (2, n, len(net.vars)))
    lam = r.uniform(0.2, 0.8, (n, 1))
    if net.fam == 'PIQCNNSigmoid':
        v = u + np.abs(v) * (r.random(v.shape) < 0.6)

    def f(w):
        z = x.copy()
        z[net.vars] = w
        return np.asarray(m.predict(z), dtype=float)
    with sim.quiet():
        fu, fv = f(u), f(v)
        fm = f(lam * u + (1 - lam) * v)
    scale = 1e-3 * (1 + np.abs(fu) + np.abs(fv))
    if not np.isfinite(fu).all():
        probe(sim, 'diverged fits')
        return
    if net.fam == 'PIQCNNSigmoid':
        bad = fu - fv
        what = 'falls by'
    else:
        bad = fm - (lam * fu + (1 - lam) * fv)
        what = 'is above the chord by'
    sim.compared += bad.size
    if (bad > scale).any():
        i = np.unravel_index(np.argmax(bad - scale), bad.shape)
        raise Violation('not-monotone' if net.fam == 'PIQCNNSigmoid' else 'not-convex',
                        '{}: forecast {} {} {:.4g}, between {} and {}'.format(when, i[1], what, bad[i], u[i[0]].round(3), v[i[0]].round(3)))


class Question:
    def __init__(self, sim, net, x):
        self.row = x.iloc[[sim.choose(len(x), 'row')]].copy()
        self.obj = sim.pick(list(OBJECTIVES), 'objective')
        self.n_iter = sim.pick([20, 10, 40], 'iterations')
        self.vanilla = sim.chance(0.2, 'gradient descent')
        self.kw = dict(target=sim.pick([0.0, 2.0], 'target')) if self.obj == 'tracking' else {}

    def __repr__(self):
        return '{} {} {} vanilla={} row {}'.format(self.obj, self.kw, self.n_iter, self.vanilla, self.row.index[0])

    def ask(self, m, keep=False):
        with silent():
            u, inp, t, v = m.optimize(self.row.copy(), OBJECTIVES[self.obj], n_iter=self.n_iter, vanilla_gd=self.vanilla,
                                      recompile_obj=not keep, **self.kw)
        return np.asarray(u, dtype=float), inp, t, np.asarray(v, dtype=float)


def judge(sim, net, m, q, got, want, what):
    for name, a, b in zip(('optimum', 'inputs', 'forecast', 'objective'), got, want):
        same(sim, 'optimum-differs', a, b, '{}: {} for {}'.format(what, name, q), rtol=RT, atol=AT)
    u, inp, t, _ = got
    require(sim, 'optimum-differs', list(inp.columns) == COLS and list(inp.index) == list(q.row.index), 'labels of the inputs')
    same(sim, 'optimum-differs', inp[net.vars].values.ravel(), u, 'the optimum in the inputs', rtol=1e-5, atol=1e-5)
    rest = [c for c in COLS if c not in net.vars]
    same(sim, 'other-inputs-changed', inp[rest].values.astype(float), q.row[rest].values, '{}: inputs not optimised'.format(what),
         rtol=1e-4, atol=1e-4)
    with sim.quiet():
        p = m.predict(inp)
    same(sim, 'optimum-differs', np.asarray(t, dtype=float), np.asarray(p, dtype=float), 'forecast for the optimum', rtol=RT, atol=AT)


def twin(sim, m):
    """a copy which has never optimised anything"""
    t = copy.copy(m)
    t.__dict__ = dict(m.__dict__)
    t.iterate = None
    return t


def through_file(m, net):
    d = tempfile.mkdtemp(prefix='verif-c19-')
    try:
        p = os.path.join(d, 'model.pk')
        m.save(p)
        from pyforecaster.forecasting_models.neural_models import ICNN
        return getattr(ICNN, net.fam)(load_path=p)
    finally:
        shutil.rmtree(d)


def remote(fam, content, q, keep):
    models.quiet_jax()
    d = tempfile.mkdtemp(prefix='verif-c19-')
    try:
        p = os.path.join(d, 'model.pk')
        with open(p, 'wb') as f:
            f.write(content)
        from pyforecaster.forecasting_models.neural_models import ICNN
        return q.ask(getattr(ICNN, fam)(load_path=p), keep)
    finally:
        shutil.rmtree(d)


def dump(m):
    d = tempfile.mkdtemp(prefix='verif-c19-')
    try:
        p = os.path.join(d, 'model.pk')
        m.save(p)
        return open(p, 'rb').read()
    finally:
        shutil.rmtree(d)


def fit(m, x, y, seed):
    np.random.seed(seed)
    with silent():
        return m.fit(x.copy(), y.copy())


def histories(sim):
    """fits, some of them interrupted, questions and restarts"""
    cores(sim)
    net = Net(sim)
    r = rng(sim)
    x, y = net.data(r)
    m = net.build()
    ready = False
    kept = None                       # what the kept compiled objective is for
    for k in range(sim.between(3, 6, 'operations')):
        op = 'fit' if not ready else sim.pick(['ask', 'ask', 'ask', 'fit', 'interrupted fit', 'copy', 'file', 'remote', 'failing'], 'op')
        if not ready and sim.chance(0.3, 'interrupted first'):
            op = 'interrupted fit'
        sim.describe(op)
        if op in ('fit', 'interrupted fit'):
            x, y = net.data(rng(sim, 'rows'))
            seed = sim.subseed('training') % 2 ** 32
            if op == 'fit':
                fit(m, x, y, seed)
                sim.ops += 1
                ready = True
            else:
                outer = sim.chance(0.7, 'in the training loop')
                line = 30 + sim.choose(sim.pick([60, 150, 300], 'where'), 'line') if outer else 1 + sim.choose(
                    sim.pick([40, 100, 10, 300], 'where'), 'line')
                with seams.line_raiser(line, sim.pick([KeyboardInterrupt, MemoryError, ValueError], 'class'), outer=outer):
                    e = failing(lambda: fit(m, x, y, seed))
                probe(sim, 'interrupted fits', int(e is not None))
                if e is None:
                    ready = True
                if not ready:
                    with sim.quiet():
                        _, e = attempt(lambda: m.predict(x.iloc[:2]))
                    probe(sim, 'forecasts of half-fitted networks', int(e is None))
                    if e is not None:
                        continue
            shape(sim, net, m, rng(sim, 'shape'), 'after {}'.format(op))
            continue
        if op == 'copy':
            m = copy.deepcopy(m)
            continue
        if op == 'file':
            m = through_file(m, net)
            sim.fault('restart')
            kept = None
            shape(sim, net, m, rng(sim, 'shape'), 'after loading')
            continue
        q = Question(sim, net, x)
        keep = kept is not None and sim.chance(0.6, 'without compiling again')
        if keep:
            q.obj, q.vanilla = kept
            q.kw = dict(target=sim.pick([0.0, 2.0], 'target')) if q.obj == 'tracking' else {}
        sim.describe('{}: {!r}{}'.format(op, q, ' kept' if keep else ''))
        if op == 'failing':
            with seams.line_raiser(1 + sim.choose(25, 'line'), sim.pick([KeyboardInterrupt, MemoryError, ValueError], 'class')):
                e = failing(lambda: q.ask(m))
            probe(sim, 'questions that failed', int(e is not None))
            kept = None
            continue
        with sim.quiet():
            before = np.asarray(m.predict(x.iloc[:5]))
            want = q.ask(twin(sim, m))
        if not np.isfinite(want[3]).all() or not np.isfinite(want[0]).all():
            probe(sim, 'diverged optimisations')
            continue
        if op == 'remote':
            sim.fault('restart-other-process')
            got = child.other().call('sim.props.c19:remote', net.fam, dump(m), q, False)
        else:
            got = q.ask(m, keep)
            kept = (q.obj, q.vanilla)
        sim.ops += 1
        judge(sim, net, m, q, got, want, 'question {}'.format(k))
        with sim.quiet():
            same(sim, 'forecaster-changed', np.asarray(m.predict(x.iloc[:5])), before, 'forecasts after optimising', rtol=1e-6, atol=1e-6)
    probe(sim, 'networks in use', int(ready))


def threads(sim):
    """several threads optimise through one network, while others ask for forecasts"""
    cores(sim)
    net = Net(sim)
    r = rng(sim)
    x, y = net.data(r)
    m = net.build()
    with sim.quiet():
        fit(m, x, y, 3)
    qs = [Question(sim, net, x) for _ in range(sim.between(2, 3, 'threads'))]
    reader = sim.chance(0.5, 'somebody reads')
    quantum = sim.pick([12, 3, 40, 400], 'mean-quantum')
    sim.describe('threads {!r} reader={} quantum={}'.format(qs, reader, quantum))
    with sim.quiet():
        wants = [q.ask(twin(sim, m)) for q in qs]
        base = np.asarray(m.predict(x.iloc[:5]))
    if not all(np.isfinite(w[0]).all() and np.isfinite(w[3]).all() for w in wants):
        return
    jobs = [lambda q=q: q.ask(m) for q in qs]
    if reader:
        jobs.append(lambda: [np.asarray(m.predict(x.iloc[:5])) for _ in range(2)])
    out = seams.concurrently(jobs, mean_quantum=quantum)
    sim.ops += len(jobs)
    for q, w, (got, e) in zip(qs, wants, out):
        if e is not None:
            raise Violation('concurrent-failure', '{!r}: {!r}'.format(q, e))
        judge(sim, net, m, q, got, w, 'next to others')
    if reader:
        got, e = out[-1]
        if e is not None:
            raise Violation('concurrent-failure', 'reader: {!r}'.format(e))
        for g in got:
            same(sim, 'forecaster-changed', g, base, 'forecasts next to optimisations', rtol=1e-6, atol=1e-6)


SCENARIOS = [('histories', histories, 3), ('threads', threads, 1)]
