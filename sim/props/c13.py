"""C13: saving and loading neural forecasters is crash-safe and lossless."""
import copy
import errno
import hashlib
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import child, models, seams, simfs
from ..core import Violation, HarnessError, Discard, SimAbort
from ..compare import diff
from ..gen import attempt, mean_quantum, probe, require, rng

PROP = 'C13'
PATH = simfs.ROOT + '/models/model.pk'
VERSIONS = {}      # family -> [(forecaster, its answers)]
MEMO = {}          # (family, content) -> versions it holds, or what is wrong with it

SETTINGS = {
    'ffnn': dict(n_hidden_x=130, q_vect=[0.1, 0.5, 0.9], split_heads=True),
    'nn': dict(normalize_target=False, unnormalized_inputs=['f0']),
    'gauss': dict(probabilistic=True, optimization_vars=['f0']),
    'lstm': dict(n_hidden_x=9, val_ratio=0.5),
    'picnn': dict(optimization_vars=['f0', 'f1']),
    'piqcnn': dict(optimization_vars=['f0']),
}
N_VERSIONS = 3


def cls(fam):
    from pyforecaster.forecasting_models.neural_models import base_nn as N, ICNN as I
    return dict(ffnn=N.FFNN, nn=N.NN, gauss=I.PICNN, lstm=N.LSTMNN, picnn=I.PICNN, piqcnn=I.PIQCNN)[fam]


def data(seed, n=240, steps=2):
    r = np.random.default_rng(seed)
    idx = pd.date_range('2021-03-01', periods=n, freq='1h')
    x = pd.DataFrame(r.standard_normal((n, 3)), index=idx, columns=['f0', 'f1', 'f2'])
    y = pd.DataFrame(x.values @ r.standard_normal((3, steps)) + seed + 0.1 * r.standard_normal((n, steps)), index=idx,
                     columns=['y{}'.format(i) for i in range(steps)])
    return x, y


def asked():
    return data(999, 4)[0]


def answers(m, scenarios=True):
    x = asked()
    out = [m.predict(x), np.asarray(m.predict_quantiles(x), dtype=float)]
    if scenarios:
        np.random.seed(5)
        out.append(np.asarray(m.predict_scenarios(x, random_state=3, n_scen=8), dtype=float))
    return out


def train(fam, i, base=None):
    """version i; trained further from a copy of base, which saves compiling"""
    np.random.seed(i)
    kw = dict(dict(n_out=2, n_layers=2, n_hidden_x=6, n_epochs=1, batch_size=40, stats_step=50), **copy.deepcopy(SETTINGS[fam]))
    if 'q_vect' in kw:
        kw['q_vect'] = np.array(kw['q_vect'])
    m = copy.deepcopy(base) if base is not None else cls(fam)(**kw)
    return m.fit(*data(10 * i + 1))


def build_versions():
    for fam in SETTINGS:
        VERSIONS[fam] = []
        for i in range(N_VERSIONS):
            m = train(fam, i, VERSIONS[fam][0][0] if i else None)
            VERSIONS[fam].append((m, answers(m)))
            copy.copy(m)       # Python caches something on the class the first time


def prepare():
    models.warm(neural=True)
    child.start()
    from pyforecaster.forecasting_models.neural_models import ICNN   # noqa
    build_versions()


# ------------------------------------------------------------------------------------------------ other process
def answers_from_file(fam, content):
    models.quiet_jax()
    d = tempfile.mkdtemp(prefix='verif-c13-')
    try:
        p = os.path.join(d, 'model.pk')
        with open(p, 'wb') as f:
            f.write(content)
        return answers(cls(fam)(load_path=p))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------------------------------------ judging a checkpoint
def same_answers(got, want):
    for name, g, w, (rt, at) in zip(('forecast', 'quantiles', 'scenarios'), got, want, [(1e-5, 1e-5)] * 2 + [(1e-5, 1e-4)]):
        p = diff(g, w, rt, at)
        if p:
            return '{}: {}'.format(name, p)


def problem(fam, content):
    """the versions a checkpoint holds, or a text saying what is wrong with it"""
    key = fam, hashlib.sha256(content).digest()
    if key not in MEMO:
        d = tempfile.mkdtemp(prefix='verif-c13-')
        try:
            p = os.path.join(d, 'model.pk')
            with open(p, 'wb') as f:
                f.write(content)
            try:
                got = answers(cls(fam)(load_path=p))
            except (SimAbort, HarnessError):
                raise
            except Exception as e:   # noqa
                MEMO[key] = 'it cannot be loaded or used: {!r}'.format(e)[:300]
            else:
                holds = [i for i, (_, a) in enumerate(VERSIONS[fam]) if same_answers(got, a) is None]
                MEMO[key] = holds if holds else 'its forecasts are none of those saved: {}'.format(
                    [same_answers(got, a) for _, a in VERSIONS[fam]])[:400]
        finally:
            shutil.rmtree(d)
    return MEMO[key]


def holds(sim, disk, fam, accepted, when):
    """the version the path holds now; a violation unless it is one of the accepted ones (None: no file)"""
    disk.quiet += 1
    try:
        with sim.quiet():
            content = disk.content(PATH)
            if content is None:
                require(sim, 'checkpoint-lost', None in accepted, '{}: the file is gone'.format(when))
                return None
            p = problem(fam, content)
    finally:
        disk.quiet -= 1
    sim.compared += 1
    if isinstance(p, str):
        raise Violation('checkpoint-broken', '{}: {} bytes; {}'.format(when, len(content), p))
    ok = [v for v in p if v in accepted]
    if not ok:
        raise Violation('wrong-checkpoint', '{}: the file holds version {}, accepted are {}'.format(when, p, sorted(accepted, key=str)))
    return ok[0]


# ------------------------------------------------------------------------------------------------ faults
class Brittle(dict):
    """a dictionary that cannot be pickled for the n-th time"""

    def __init__(self, src, nth, cls_):
        super().__init__(src)
        self.left, self.cls_ = [nth], cls_

    def __reduce_ex__(self, protocol):
        self.left[0] -= 1
        if self.left[0] == 0:
            seams.CUR.fault('serialisation-failure')
            raise self.cls_('injected')
        return dict, (dict(self),)

    def __deepcopy__(self, memo):
        return copy.deepcopy(dict(self), memo)


ERRNOS = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES, errno.EMFILE]


def draw_fault(sim):
    kind = sim.pick(['none', 'kill', 'power', 'error', 'capacity', 'short', 'pickle', 'interrupt'], 'fault')
    if kind == 'none':
        return kind, None
    if kind in ('kill', 'power'):
        op = sim.pick([None, 'write', 'rename', 'fsync', 'close'], 'call')
        return kind, simfs.Plan(kind, sim.choose(12 if op is None else 2, 'step'), sim.choose(8, 'part'), op)
    if kind == 'error':
        op = sim.pick([None, 'write', 'rename', 'fsync', 'close', 'open'], 'call')
        return kind, simfs.Plan(kind, sim.choose(12 if op is None else 2, 'step'), sim.pick(ERRNOS, 'errno'), op)
    if kind == 'capacity':
        return kind, simfs.Plan(kind, 0, sim.pick([0, 100, 6000, 13000, 25000, 60000], 'capacity'))
    if kind == 'short':
        return kind, simfs.Plan(kind, sim.choose(2, 'step'), None, 'write')
    if kind == 'pickle':
        return kind, (sim.pick(['pars', 'err_distr'], 'what'), sim.between(1, 3, 'time'),
                      sim.pick([TypeError, MemoryError, RecursionError, ValueError], 'class'))
    return kind, (sim.between(1, 40, 'line'), sim.pick([KeyboardInterrupt, MemoryError, OSError], 'class'))


def save(sim, disk, m, fault):
    """one save under a fault: 'ok', 'error' or 'dead'"""
    kind, p = fault
    disk.arm(p if isinstance(p, simfs.Plan) else None)
    if kind == 'pickle':
        m = copy.copy(m)
        setattr(m, p[0], Brittle(getattr(m, p[0]), p[1], p[2]))
    try:
        if kind == 'interrupt':
            with seams.line_raiser(p[0], p[1], 'line-raise'):
                m.save(PATH)
        else:
            m.save(PATH)
        out = 'ok'
    except simfs.SimKill:
        out = 'dead'
    except (SimAbort, HarnessError, Violation, Discard):
        raise
    except BaseException as e:   # noqa
        if kind == 'none':
            raise Violation('save-failed', 'without any fault: {!r}'.format(e))
        sim.event('save failed', type(e).__name__)
        out = 'error'
    if disk.dead:
        out = 'dead'
    disk.disarm()
    sim.schedule_point(tuple(disk.trace), kind, out)
    return out


def saves(sim):
    fam = sim.pick(list(SETTINGS), 'family')
    n = len(VERSIONS[fam])
    sim.describe('{} forecasters'.format(fam))
    with simfs.Disk(sim) as disk:
        os.makedirs(os.path.dirname(PATH))
        disk.sync()
        now, durable = None, {None}
        for k in range(sim.between(1, 5, 'saves')):
            v = sim.choose(n, 'version')
            m = VERSIONS[fam][v][0]
            fault = draw_fault(sim)
            out = save(sim, disk, m, fault)
            sim.ops += 1
            when = 'save {} (version {} over {}, fault {} {!r}: {})'.format(k, v, now, fault[0], fault[1], out)
            sim.describe(when)
            power = fault[0] == 'power' and out == 'dead'
            accepted = {v} if out == 'ok' else {now, v}
            durable = {v} if out == 'ok' else durable | {v}
            if out == 'dead':
                disk.restart(power)
                now = holds(sim, disk, fam, durable if power else accepted, when + ' and restart')
                if power:
                    durable = {now}
            else:
                now = holds(sim, disk, fam, accepted, when)
            if sim.chance(0.25, 'power loss while idle'):
                sim.fault('disk-power')
                disk.restart(True)
                now = holds(sim, disk, fam, durable, when + ', power lost afterwards')
                durable = {now}
            elif sim.chance(0.2, 'restart while idle'):
                disk.restart(False)


def others(sim):
    """two threads save to one path while a third one loads from it"""
    fam = sim.pick(list(SETTINGS), 'family')
    n = len(VERSIONS[fam])
    vs = [sim.choose(n, 'version') for _ in range(sim.between(1, 3, 'writers'))]
    sim.describe('{} forecasters, versions {} saved at the same time'.format(fam, vs))
    old = sim.choose(n, 'old')
    loads = sim.between(0, 2, 'loads')
    seen = []
    with simfs.Disk(sim) as disk:
        os.makedirs(os.path.dirname(PATH))
        VERSIONS[fam][old][0].save(PATH)

        def load():
            for _ in range(loads):
                seen.append(cls(fam)(load_path=PATH))

        got = seams.concurrently([load] + [lambda v=v: VERSIONS[fam][v][0].save(PATH) for v in vs],
                                 mean_quantum=mean_quantum(sim), opcodes=sim.chance(0.1, 'bytecode'))
        for i, (_, e) in enumerate(got):
            if e is not None:
                raise Violation('concurrent-call-failed', '{}: {!r}'.format('load' if i == 0 else 'save', e))
        sim.ops += len(vs) + loads
        disk.restart(sim.chance(0.5, 'power loss'))
        holds(sim, disk, fam, set(vs), 'all saved')
        for m in seen:
            with sim.quiet():
                got = answers(m, scenarios=False)
            sim.compared += 1
            if all(same_answers(got, VERSIONS[fam][v][1]) for v in {old} | set(vs)):
                raise Violation('torn-load', 'a forecaster loaded meanwhile answers like none of those saved')


def roundtrip(sim):
    """save, load, save again, here or in another process"""
    fam = sim.pick(list(SETTINGS), 'family')
    v = sim.choose(len(VERSIONS[fam]), 'version')
    m, want = VERSIONS[fam][v]
    fresh = sim.chance(0.15, 'newly trained')
    if fresh:
        seed = sim.subseed('fit') % 1000
        with sim.quiet():
            m = train(fam, 20 + seed, m)
            want, e = attempt(lambda: answers(m))
            if e is not None:
                raise Discard('too few errors per hour for a copula')
    sim.describe('{} version {}{}'.format(fam, v, ' newly trained' if fresh else ''))
    with simfs.Disk(sim) as disk:
        os.makedirs(os.path.dirname(PATH))
        for k in range(sim.between(1, 3, 'generations')):
            m.save(PATH)
            with sim.quiet():
                content = disk.content(PATH)
                how = 'loaded in this process'
                m = cls(fam)(load_path=PATH)
                sim.ops += 1
                got, e = attempt(lambda: answers(m))
            if e is not None:
                raise Violation('loaded-forecaster-fails', 'generation {}: {!r}'.format(k, e))
            p = same_answers(got, want)
            require(sim, 'loaded-forecaster-differs', p is None, 'generation {}, {}: {}'.format(k, how, p))
    if sim.chance(0.5, 'other process'):
        sim.fault('restart-in-other-process')
        got = child.other().call('sim.props.c13:answers_from_file', fam, content)
        p = same_answers(got, want)
        require(sim, 'loaded-forecaster-differs', p is None, 'loaded in another process: {}'.format(p))


SCENARIOS = [('saves', saves, 20), ('others', others, 3), ('roundtrip', roundtrip, 2)]
