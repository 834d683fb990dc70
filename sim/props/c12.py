"""C12: online features equal batch features, and a restart does not change them."""
import copy
import pickle

import numpy as np
import pandas as pd

from ..gen import cores, same, require, rng, attempt, probe
from ..core import Discard
from .. import fmt, child

PROP = 'C12'
RT, AT = 1e-7, 1e-7
# stretches around new year, Easter, daylight saving changes, leap days and holidays falling on awkward weekdays
STARTS = ['2021-03-01', '2021-03-26', '2021-10-29', '2018-12-29', '2020-12-30', '2019-12-30', '2024-12-30', '2021-04-01',
          '2020-02-27', '2018-12-24', '2022-05-24', '2024-07-30', '2017-12-28']


def prepare():
    child.start()
    import pyforecaster.formatter   # noqa
    child.other().call('sim.fmt:describe', dict(dt='1h', augment=True, transformers=[], targets=[], normalizers=[]))


def span(f, spec):
    """how far back the transformers and normalisers look"""
    lims = f.get_time_lims()
    back = -min(lims['start_time'].iloc[0], pd.Timedelta(0))
    for n in spec['normalizers']:
        b = pd.Timedelta(n['agg_freq']) + (int(np.max(n['lags'])) if n.get('lags') is not None else 0) * pd.Timedelta(spec['dt'])
        back = max(back, b - pd.Timedelta(spec['dt']))
    return back


def restart(sim, f, how):
    if how == 'pickle':
        sim.fault('restart')
        return pickle.loads(pickle.dumps(f))
    if how == 'copy':
        sim.fault('copy')
        return copy.deepcopy(f)
    return f


def one_row(y, t, what):
    return y.loc[[t]] if t in y.index else None


def serve(sim):
    cores(sim)
    r = rng(sim)
    dt = sim.pick(['1h', '20min', '15min', '6h', '1D'], 'sampling')
    cols = ['a', 'b', 'c'][:sim.between(1, 3, 'columns')]
    spec = fmt.draw_spec(sim, cols, dt, max_tr=4, causal=True)
    tz = sim.pick([None, 'Europe/Zurich', 'UTC'], 'tz')
    if dt == '1D':
        tz = None
    n = sim.between(30, 60, 'rows')
    start = sim.pick(STARTS, 'start')
    x = fmt.signals(r, n, cols, dt, start=start, tz=tz, ints=sim.chance(0.2, 'integers'))
    kw = dict(time_features=sim.chance(0.7, 'time features'), holidays=sim.chance(0.5, 'holidays'))
    if kw['holidays'] and sim.chance(0.3, 'canton'):
        kw['subdiv'] = sim.pick(['TI', 'ZH'], 'subdivision')
    with_dt = sim.chance(0.4, 'explicit dt')
    sim.describe('serving {} rows from {} {} tz={} dt given={} {}'.format(n, start, kw, tz, with_dt, fmt.describe(spec)))
    with sim.quiet():
        full = fmt.build(spec, with_dt=with_dt)
        f0 = fmt.build(spec, with_dt=with_dt)
        raw, _ = f0.transform(x.copy(), time_features=False, return_target=False)
        if not len(raw):
            raise Discard('series too short')
        ref, _ = full.transform(x.copy(), return_target=False, **kw)
        back = span(full, spec)
    f = fmt.build(spec, with_dt=with_dt)
    if with_dt and sim.chance(0.5, 'limits first'):
        same(sim, 'wrong-time-limits', f.get_time_lims(), full.get_time_lims(), 'time limits before any data')
    else:
        # training transform on the first part
        m = sim.between(max(n // 3, 12), n, 'training rows')
        f0 = fmt.build(spec, with_dt=with_dt)
        with sim.quiet():
            ok = len(f0.transform(x.iloc[:m].copy(), time_features=False)[0]) > 0
        if ok:
            f.transform(x.iloc[:m].copy(), **kw)
            sim.ops += 1
        elif not with_dt:
            f.transform(x.copy(), return_target=False, **kw)
    step = pd.Timedelta(spec['dt'])
    for k in range(sim.between(3, 10, 'requests')):
        i = sim.choose(n, 'row')
        t = x.index[i]
        extra = sim.pick([0, 0, 1, 2, 7, 30], 'extra rows')
        w = x.loc[t - back - extra * step:t]
        least = 1 if with_dt else 3       # the sampling time has to be inferred from the window
        if x.index[0] > t - back:
            w = x.iloc[:i + 1]
        elif len(w) < least:
            w = x.iloc[max(0, i + 1 - least):i + 1]
        if len(w) < least:
            continue
        how = sim.pick(['none', 'none', 'pickle', 'copy', 'other process'], 'restart')
        w = w.copy()
        sim.describe('request row {} with {} rows, restart: {}'.format(i, len(w), how))
        want = one_row(ref, t, 'batch')
        if how == 'other process':
            sim.fault('restart-other-hash-seed')
            if want is None:
                continue
            y, blob, lims = child.other().call('sim.fmt:remote_transform', pickle.dumps(f), w, dict(kw, return_target=False))
            f = pickle.loads(blob)
            same(sim, 'wrong-time-limits', lims, full.get_time_lims(), 'time limits after a restart')
        else:
            f = restart(sim, f, how)
            if want is None:
                with sim.quiet():
                    # binned features of too short windows may be refused
                    y0, err = attempt(lambda: copy.deepcopy(f).transform(w, time_features=False, return_target=False)[0])
                require(sim, 'wrong-features', err is not None or t not in y0.index,
                        'row {} has features online but not in the batch'.format(t))
                continue
            y, _ = f.transform(w, return_target=False, **kw)
        sim.ops += 1
        got = one_row(y, t, 'online')
        require(sim, 'row-missing', got is not None, 'no features for {} from {} rows'.format(t, len(w)))
        same(sim, 'wrong-features', list(got.columns), list(want.columns), 'columns')
        same(sim, 'wrong-features', got, want, 'features of {}'.format(t), rtol=RT, atol=AT)
        same(sim, 'wrong-time-limits', f.get_time_lims(), full.get_time_lims(), 'time limits')


def late(sim):
    """rows arrive or are corrected later: the features of earlier rows stay"""
    cores(sim)
    r = rng(sim)
    dt = sim.pick(['1h', '15min', '6h', '1D'], 'sampling')
    cols = ['a', 'b', 'c'][:sim.between(1, 3, 'columns')]
    spec = fmt.draw_spec(sim, cols, dt, max_tr=4, causal=True)
    tz = sim.pick([None, 'Europe/Zurich'], 'tz') if dt != '1D' else None
    n = sim.between(35, 60, 'rows')
    start = sim.pick(STARTS, 'start')
    x = fmt.signals(r, n, cols, dt, start=start, tz=tz)
    kw = dict(time_features=sim.chance(0.7, 'time features'), holidays=sim.chance(0.5, 'holidays'))
    sim.describe('late data, {} rows from {} {} {}'.format(n, start, kw, fmt.describe(spec)))
    with sim.quiet():
        raw, _ = fmt.build(spec).transform(x.copy(), time_features=False, return_target=False)
        if len(raw) < 4:
            raise Discard('series too short')
        full = fmt.build(spec)
        ref, _ = full.transform(x.copy(), return_target=False, **kw)
    f = full if sim.chance(0.5, 'same formatter') else fmt.build(spec)
    first = x.index.get_loc(raw.index[0])
    for k in range(sim.between(2, 6, 'versions')):
        cut = sim.between(first + 1, n - 1, 'cut')
        t = x.index[cut - 1]
        kind = sim.pick(['truncated', 'corrected', 'missing later', 'replaced'], 'later rows')
        z = x.copy()
        if kind == 'truncated':
            z = z.iloc[:cut]
        elif kind == 'corrected':
            z.iloc[cut:] = z.iloc[cut:] * float(r.uniform(-3, 3)) + float(r.uniform(-100, 100))
        elif kind == 'replaced':
            z.iloc[cut:] = r.standard_normal((n - cut, len(cols))) * 1e3
        else:
            z.iloc[sim.between(cut, n - 1, 'gap'):, sim.choose(len(cols), 'gap-col')] = np.nan
        sim.describe('{} after row {}'.format(kind, cut - 1))
        sim.fault('late-data')
        y, _ = f.transform(z, return_target=False, **kw)
        sim.ops += 1
        same(sim, 'earlier-rows-changed', y.loc[:t], ref.loc[:t], '{} after row {}'.format(kind, cut - 1), rtol=RT, atol=1e-6)
        with_target = sim.chance(0.3, 'with target')
        if with_target and spec['targets']:
            with sim.quiet():
                chk, _ = fmt.build(spec).transform(z.copy(), time_features=False)
            if len(chk):
                y, tg = f.transform(z, return_target=True, **kw)
                common = y.index.intersection(ref.loc[:t].index)
                same(sim, 'earlier-rows-changed', y.loc[common], ref.loc[common], 'with targets', rtol=RT, atol=1e-6)


def calendar(sim):
    """time and holiday columns only, windows of any length over awkward stretches"""
    r = rng(sim)
    year = sim.between(2010, 2026, 'year')
    where = sim.pick(['newyear', 'anywhere', 'xmas', 'easter', 'dst'], 'where')
    dt = sim.pick(['6h', '1D', '1h', '3h'], 'sampling')
    days = sim.between(6, 20, 'days')
    base = {'newyear': '{}-12-27'.format(year), 'xmas': '{}-12-20'.format(year), 'easter': '{}-03-25'.format(year),
            'dst': '{}-10-23'.format(year)}.get(where) or str(pd.Timestamp('{}-01-01'.format(year)) + pd.Timedelta(days=sim.choose(340, 'day')))[:10]
    tz = sim.pick([None, 'Europe/Zurich', 'UTC'], 'tz') if dt != '1D' else None
    idx = pd.date_range(base, periods=int(pd.Timedelta(days=days) / pd.Timedelta(dt)), freq=dt, tz=tz)
    x = pd.DataFrame({'a': r.standard_normal(len(idx))}, index=idx)
    country = sim.pick(['CH', 'IT', 'DE'], 'country')
    from pyforecaster.formatter import Formatter
    kw = dict(time_features=True, holidays=True, return_target=False, state_code=country)
    sim.describe('calendar {} {} {} tz={} {}'.format(base, len(idx), dt, tz, country))
    with sim.quiet():
        ref, _ = Formatter().transform(x.copy(), **kw)
    f = Formatter()
    for k in range(sim.between(4, 14, 'windows')):
        i = sim.choose(len(idx), 'last')
        w = sim.pick([1, 2, 3, 5, 9, 17, 40], 'window')
        z = x.iloc[max(0, i + 1 - w):i + 1].copy()
        f = restart(sim, f, sim.pick(['none', 'none', 'pickle', 'copy'], 'restart'))
        y, _ = f.transform(z, **kw)
        sim.ops += 1
        same(sim, 'wrong-features', y.iloc[[-1]], ref.iloc[[i]], 'row {} from a window of {}'.format(idx[i], len(z)))


def hash_seed(sim):
    """the same configuration and data in another process: same columns in the same order, same values"""
    cores(sim)
    r = rng(sim)
    dt = sim.pick(['1h', '15min'], 'sampling')
    n_sig = sim.between(1, 4, 'signals')
    shared = ['temperature', 'ghi', 'wind', 'price', 'humidity'][:sim.between(1, 5, 'shared columns')]
    sig = ['meter_{}'.format(i) for i in range(n_sig)]
    glob = sim.chance(0.7, 'global form')
    cols = (shared + ['target']) if glob else sig + shared
    spec = fmt.draw_spec(sim, cols, dt, max_tr=3, causal=True, target_col='target' if glob else None)
    have = {n for t in spec['transformers'] for n in t['names']}
    for c in cols:
        if glob and c not in have:
            spec['transformers'].append(dict(names=[c], functions=None, agg_freq=None, lags=[1, 2], relative_lags=False,
                                             agg_bins=None, nested=True))
    n = sim.between(40, 60, 'rows')
    flat = fmt.signals(r, n, sig + shared, dt)
    if glob and sim.chance(0.4, 'multi-index'):
        keys, parts = list(sig), [flat[[s]].rename(columns={s: 'power'}) for s in sig]
        k = sim.between(1, len(shared), 'shared groups')
        for j in range(k):
            keys.append('shared_{}'.format(j))
            parts.append(flat[shared[j::k]])
        x = pd.concat(parts, axis=1, keys=keys)
    else:
        x = flat
    kw = dict(time_features=sim.chance(0.5, 'time features'), holidays=sim.chance(0.3, 'holidays'), return_target=True,
              global_form=glob, reduce_memory=sim.chance(0.3, 'reduce'))
    with_dt = sim.chance(0.3, 'explicit dt')
    sim.describe('two processes: {} signals {} {} {}'.format(n_sig, kw, list(x.columns)[:8], fmt.describe(spec)))
    f = fmt.build(spec, with_dt=with_dt)
    with sim.quiet():
        f0 = fmt.build(spec)
        d = f0.global_form_preprocess(x.copy())[0] if glob else x
        if not len(fmt.build(spec)._transform(d.copy(), time_features=False)[0]):
            raise Discard('series too short')
    a, ya = f.transform(x.copy(), **kw)
    sim.ops += 1
    sim.fault('restart-other-hash-seed')
    b, yb = child.other().call('sim.fmt:remote_build_transform', spec, x, kw, with_dt)
    same(sim, 'depends-on-process', list(map(str, a.columns)), list(map(str, b.columns)), 'column order')
    same(sim, 'depends-on-process', a, b, 'x', rtol=1e-6, atol=1e-6)
    same(sim, 'depends-on-process', ya, yb, 'target', rtol=1e-6, atol=1e-6)
    kw2 = dict(kw, return_target=False)
    w = x.iloc[-sim.between(30, 40, 'window'):].copy()
    with sim.quiet():
        ws = fmt.build(spec)
        dw = ws.global_form_preprocess(w.copy())[0] if glob else w
        if not len(ws._transform(dw.copy(), time_features=False, return_target=False)[0]):
            return
    c, blob, _ = child.other().call('sim.fmt:remote_transform', pickle.dumps(f), w, kw2)
    e, _ = f.transform(w.copy(), **kw2)
    sim.ops += 1
    same(sim, 'depends-on-process', list(map(str, e.columns)), list(map(str, c.columns)), 'column order after the restart')
    same(sim, 'depends-on-process', e, c, 'x after the restart', rtol=1e-6, atol=1e-6)


def global_serving(sim):
    """windows of a global-form dataset"""
    cores(sim)
    r = rng(sim)
    dt = sim.pick(['1h', '15min'], 'sampling')
    n_sig = sim.between(1, 4, 'signals')
    shared = ['ghi', 'wind', 'price'][:sim.between(0, 3, 'shared columns')]
    sig = ['m{}'.format(i) for i in range(n_sig)]
    spec = fmt.draw_spec(sim, shared + ['target'], dt, max_tr=3, causal=True, target_col='target')
    have = {n for t in spec['transformers'] for n in t['names']}
    for c in shared + ['target']:
        if c not in have:
            spec['transformers'].append(dict(names=[c], functions=None, agg_freq=None, lags=[1, 2], relative_lags=False,
                                             agg_bins=None, nested=True))
    n = sim.between(40, 60, 'rows')
    x = fmt.signals(r, n, sig + shared, dt, start=sim.pick(STARTS, 'start'))
    kw = dict(time_features=sim.chance(0.6, 'time features'), holidays=sim.chance(0.3, 'holidays'), return_target=False,
              global_form=True, reduce_memory=False)
    sim.describe('global serving: {} signals {} {}'.format(n_sig, kw, fmt.describe(spec)))
    with sim.quiet():
        f0 = fmt.build(spec)
        if not len(f0._transform(f0.global_form_preprocess(x.copy())[0], time_features=False, return_target=False)[0]):
            raise Discard('series too short')
        full = fmt.build(spec)
        ref, _ = full.transform(x.copy(), **kw)
        back = span(full, spec)
    f = copy.deepcopy(full) if sim.chance(0.5, 'same formatter') else fmt.build(spec)
    step = pd.Timedelta(dt)
    for k in range(sim.between(2, 6, 'requests')):
        i = sim.choose(n, 'row')
        t = x.index[i]
        if t not in ref.index or t - back < x.index[0]:
            continue
        w = x.loc[t - back - sim.pick([0, 1, 5], 'extra') * step:t].copy()
        if len(w) < 3:
            w = x.iloc[max(0, i - 3):i + 1].copy()
        if len(w) < 3:
            continue
        f = restart(sim, f, sim.pick(['none', 'pickle', 'copy'], 'restart'))
        y, _ = f.transform(w, **dict(kw, parallel=sim.chance(0.4, 'parallel')))
        sim.ops += 1
        require(sim, 'row-missing', t in y.index, 'no features for {}'.format(t))
        same(sim, 'wrong-features', y.loc[[t]], ref.loc[[t]], 'features of {}'.format(t), rtol=RT, atol=AT)


SCENARIOS = [('serve', serve, 5), ('late', late, 3), ('calendar', calendar, 3), ('hash_seed', hash_seed, 2),
             ('global_serving', global_serving, 2)]
