"""Runs scenarios: one run, a worker over many runs, and the replay of a file."""
import contextlib
import gc
import importlib
import io
import json
import logging
import os
import sys
import time as _t
import traceback
import warnings
from collections import Counter

from .core import Sim, Violation, HarnessError, Discard, SimAbort, seed_int, shrink
from . import seams

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_real_time = seams._real_mono


def load(prop):
    mod = importlib.import_module('sim.props.' + prop.lower())
    return mod


def scenario_of(mod, name):
    for s in mod.SCENARIOS:
        if s[0] == name:
            return s[1]
    raise HarnessError('no scenario {}'.format(name))


def pick_scenario(mod, seed, idx):
    """weighted, deterministic; the first len(SCENARIOS) runs cover every scenario once"""
    names = [s[0] for s in mod.SCENARIOS]
    weights = [s[2] if len(s) > 2 else 1 for s in mod.SCENARIOS]
    if idx < len(names):
        return names[idx]
    r = seed_int('scenario', seed, mod.PROP, idx) % sum(weights)
    for n, w in zip(names, weights):
        if r < w:
            return n
        r -= w
    raise AssertionError


def _repo_in_tb(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(seams.PKG):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


class Result:
    __slots__ = ('outcome', 'kind', 'detail', 'sim', 'tb')

    def __init__(self, outcome, sim, kind=None, detail=None, tb=None):
        self.outcome, self.sim, self.kind, self.detail, self.tb = outcome, sim, kind, detail, tb


def run_once(func, seed=None, choices=None, keep_events=False):
    sim = Sim(seed=seed, choices=choices)
    if keep_events:
        sim.keep_events = []
    sim.compared = 0
    sim.background_seed = 0
    sim.unseeded = 0
    # caches keep the modules alive: never let a collection happen at an arbitrary moment of a run
    gc.collect()
    try:
        with seams.Session(sim):
            func(sim)
        return Result('ok', sim)
    except Discard as e:
        return Result('discard', sim, detail=str(e))
    except Violation as e:
        return Result('violation', sim, e.kind, e.detail, traceback.format_exc())
    except HarnessError as e:
        return Result('harness', sim, 'harness', str(e), traceback.format_exc())
    except SimAbort:
        return Result('harness', sim, 'harness', 'SimAbort escaped', traceback.format_exc())
    except Exception as e:   # noqa
        if _repo_in_tb(e):
            return Result('violation', sim, 'unexpected-error:' + type(e).__name__, str(e)[:400], traceback.format_exc())
        return Result('harness', sim, 'harness', repr(e), traceback.format_exc())


def setup_process():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    seams.install()
    # what the code under test prints is not ours
    import numpy as np
    np.seterr(all='ignore')


@contextlib.contextmanager
def muted():
    """the code under test prints from Python and from C: send both away, keep our own channel"""
    sys.stdout.flush()
    sys.stderr.flush()
    keep1, keep2 = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.TextIOWrapper(open(os.devnull, 'wb'), write_through=True)
    try:
        yield keep1
    finally:
        sys.stdout, sys.stderr = old
        os.dup2(keep1, 1)
        os.dup2(keep2, 2)
        for fd in (keep1, keep2, null):
            os.close(fd)


def run_seed(seed, prop, scen, idx):
    return seed_int('run', seed, prop, scen, idx)


def known_findings():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'known': [], 'fixed': []}


def match_known(prop, scen, kind, detail):
    for k in known_findings()['known']:
        if k['property'] == prop and k.get('scenario', scen) == scen and k['kind'] == kind \
                and k.get('detail_contains', '') in (detail or ''):
            return k
    return None


def worker(prop, seed, first, stride, budget, max_runs, out_fd, min_runs=1, shrink_budget=45, only=None, selftest=False):
    """explore runs first, first+stride, ...; JSON lines on out_fd"""
    t0 = _real_time()
    setup_process()
    mod = load(prop)
    out = os.fdopen(out_fd, 'w')

    def emit(**kw):
        out.write(json.dumps(kw) + '\n')
        out.flush()
    with muted():
        try:
            if hasattr(mod, 'prepare'):
                mod.prepare()
        except Exception as e:   # noqa
            if _repo_in_tb(e):
                emit(type='violation', scenario='prepare', idx=-1, kind='unexpected-error:' + type(e).__name__,
                     detail=str(e)[:400], choices=[], labels=[], desc=[], prefix=[], tb=traceback.format_exc())
            else:
                emit(type='harness', scenario='prepare', idx=-1, detail=repr(e), tb=traceback.format_exc())
            emit(type='done')
            return
        gc.collect()
        gc.freeze()
        gc.disable()
        emit(type='ready', wall=_real_time() - t0)
        idx, done, history = first, 0, []
        faults, probes = Counter(), Counter()
        t1 = _real_time()
        while done < max_runs and (_real_time() - t1 < budget or done < min_runs):
            scen = pick_scenario(mod, seed, idx) if only is None else only
            func = scenario_of(mod, scen)
            rs = run_seed(seed, prop, scen, idx)
            r = run_once(func, seed=rs)
            sim = r.sim
            faults = dict(sim.faults)
            emit(type='run', scenario=scen, idx=idx, outcome=r.outcome, digest=sim.digest(), sched=sim.sched.hexdigest()[:16],
                 n_sched=sim.n_sched, n_switch=sim.n_switch, n_tasks=sim.n_tasks, ops=sim.ops, compared=sim.compared,
                 faults=faults, simt=sim.mono, jumps=sim.clock_jumps, probes=dict(getattr(sim, 'probes', {})),
                 desc=sim.desc[:40] if (done < 2 or r.outcome not in ('ok', 'discard')) else None,
                 nchoices=len(sim.record), detail=r.detail if r.outcome == 'discard' else None)
            if r.outcome == 'harness':
                emit(type='harness', scenario=scen, idx=idx, detail=r.detail, tb=r.tb, desc=sim.desc[:60])
                if not selftest:
                    break
            if r.outcome == 'violation' and not selftest:
                known = match_known(prop, scen, r.kind, r.detail)
                if known:
                    emit(type='known', scenario=scen, idx=idx, kind=r.kind, what=known['what'])
                else:
                    values = sim.values()

                    def still(vals):
                        q = run_once(func, choices=vals)
                        ok = q.outcome == 'violation' and q.kind == r.kind and not match_known(prop, scen, q.kind, q.detail)
                        return ok, q.sim.values()
                    again, _ = still(values)
                    best = values
                    if again:
                        best, tries = shrink(values, still, shrink_budget)
                    q = run_once(func, choices=best)
                    if q.outcome != 'violation':
                        q = r
                        best = values
                    emit(type='violation', scenario=scen, idx=idx, kind=r.kind, detail=q.detail, tb=q.tb, choices=best,
                         labels=[x[0] for x in q.sim.record], desc=q.sim.desc[:60], original=values,
                         repeatable=again, prefix=history[-400:])
                    break
            history.append([scen, rs])
            done += 1
            idx += stride
        emit(type='done', wall=_real_time() - t1)
    out.close()


def replay(path, verbose=True):
    """re-run a replay file; returns the Result of the final run"""
    with open(path) as f:
        rec = json.load(f)
    setup_process()
    mod = load(rec['property'])
    with muted():
        if rec['scenario'] == 'prepare':
            try:
                if hasattr(mod, 'prepare'):
                    mod.prepare()
                return rec, Result('ok', Sim(choices=[]))
            except Exception as e:   # noqa
                return rec, Result('violation', Sim(choices=[]), rec['kind'], str(e), traceback.format_exc())
        if hasattr(mod, 'prepare'):
            mod.prepare()
        for scen, rs in rec.get('prefix', []):
            run_once(scenario_of(mod, scen), seed=rs)
        r = run_once(scenario_of(mod, rec['scenario']), choices=rec['choices'], keep_events=True)
    return rec, r
