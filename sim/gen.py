"""Shared pieces of the scenarios: drawing configurations and data, calling the code under test, judging results."""
import numpy as np
import pandas as pd

from .core import Violation, HarnessError, Discard, SimAbort
from .compare import diff
from . import seams


def cores(sim):
    sim.ncpu = sim.pick([4, 1, 2, 3, 8, 6], 'cores')
    sim.describe('cores: {}'.format(sim.ncpu))
    return sim.ncpu


def mean_quantum(sim):
    """0: threads run to completion"""
    return sim.pick([0, 400, 60, 12, 3], 'mean-quantum')


def attempt(f):
    """(value, None) or (None, exception)"""
    try:
        return f(), None
    except (HarnessError, Violation, Discard, SimAbort):
        raise
    except Exception as e:   # noqa
        return None, e


def same(sim, kind, got, want, what='', rtol=0.0, atol=0.0, dtypes=False):
    sim.compared += 1
    r = diff(got, want, rtol, atol, dtypes)
    if r:
        raise Violation(kind, '{}: {}'.format(what, r) if what else r)


def require(sim, kind, ok, detail=''):
    sim.compared += 1
    if not ok:
        raise Violation(kind, detail)


def probe(sim, name, n=1):
    if not hasattr(sim, 'probes'):
        sim.probes = {}
    sim.probes[name] = sim.probes.get(name, 0) + n


def rng(sim, label='data'):
    return np.random.default_rng(sim.subseed(label))


def hours(n, start='2021-03-01', freq='1h', tz=None):
    return pd.date_range(start, periods=n, freq=freq, tz=tz)


def regression(r, n, n_cols=3, n_targets=2, start='2021-03-01', freq='1h', noise=0.3):
    """x, y with a DatetimeIndex; y depends on x and on the step"""
    idx = hours(n, start, freq)
    x = pd.DataFrame(r.standard_normal((n, n_cols)), index=idx, columns=['f{}'.format(i) for i in range(n_cols)])
    w = r.standard_normal((n_cols, n_targets))
    y = pd.DataFrame(x.values @ w + np.arange(n_targets) * 2.0 + noise * r.standard_normal((n, n_targets)), index=idx,
                     columns=['y{}'.format(i) for i in range(n_targets)])
    return x, y


def series(r, n, period=24, noise=0.3, level=10.0):
    t = np.arange(n)
    return level + 3 * np.sin(2 * np.pi * t / period + r.uniform(0, 6)) + np.cumsum(r.standard_normal(n)) * 0.05 \
        + noise * r.standard_normal(n)


EXC = [RuntimeError, MemoryError, OSError, ValueError, KeyError]


def draw_fault(sim, n_tasks, kinds=('task-raise-before', 'task-raise-mid', 'task-raise-after', 'worker-death', 'start-failure')):
    kind = sim.pick(kinds, 'fault-kind')
    nth = 0 if kind == 'start-failure' else sim.choose(max(n_tasks, 1), 'fault-task')
    cls = sim.pick(EXC, 'fault-class')
    line = sim.pick([1, 2, 3, 5, 8, 13, 21, 34], 'fault-line') if kind == 'task-raise-mid' else 1
    times = sim.pick([1, 4], 'fault-times') if kind == 'worker-death' else 1
    f = seams.Fault(kind, nth, cls, line, times)
    sim.describe('fault: {!r}'.format(f))
    return f


def no_pools(sim, when):
    p = seams.open_pools()
    require(sim, 'pool-left-running', not p, '{}: {} still running'.format(when, ', '.join(p)))


def with_clean_session(fn):
    return fn


def snapshot_rng():
    return np.random.get_state()
