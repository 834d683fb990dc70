"""C18: features look exactly where their metadata says, whatever arrives elsewhere; pruning and folds keep to it."""
import copy
import pickle

import numpy as np
import pandas as pd

from .. import child, fmt, seams
from ..core import Discard, HarnessError, SimAbort, Violation
from ..gen import attempt, cores, mean_quantum, probe, require, rng, same
from .c03 import global_spec

PROP = 'C18'
RT, AT = 1e-6, 1e-6
FN = {'mean': np.mean, 'max': np.max, 'min': np.min, 'median': np.median, 'std': lambda v: np.std(v, ddof=1),
      'sumsq': fmt.sumsq, 'span': fmt.span, 'none': lambda v: v[0]}


def prepare():
    child.start()
    import pyforecaster.formatter   # noqa


def draw_spec(sim, cols, dt, causal, **kw):
    spec = fmt.draw_spec(sim, cols, dt, max_tr=kw.pop('max_tr', 4), normalizers=False, causal=causal, **kw)
    used = set()
    for t in spec['transformers']:
        used |= fmt.columns_of(t, dt)
    for t in spec['transformers']:
        if t['agg_bins'] and sim.chance(0.6, 'lagged bins'):
            u = dict(t, lags=sim.pick([[0, 3], [1, 10], [2]], 'lags of the bins'), relative_lags=sim.chance(0.2, 'relative'))
            c = fmt.columns_of(u, dt)
            if not c & (used - fmt.columns_of(t, dt)):
                t.update(u)
                used |= c
    return spec


# ------------------------------------------------------------------------------------------------- reference
def declared(f, targets=False):
    """what the formatter says about its columns"""
    out = []
    for k, t in enumerate(f.target_transformers if targets else f.transformers):
        out.append(t.metadata.assign(transformer=k))
    return pd.concat(out) if out else pd.DataFrame()


def offsets(md, dt):
    """{column: (signal, function, first row offset, last row offset)}"""
    out = {}
    for c, m in zip(md.index, md.to_dict('records')):
        a, b = m['start_time'] / dt, m['end_time'] / dt
        if a != int(a) or b != int(b) or b <= a:
            raise Violation('wrong-metadata', '{} is said to reach from {} to {}'.format(c, m['start_time'], m['end_time']))
        if c in out:
            raise Violation('wrong-metadata', '{} is listed twice'.format(c))
        out[c] = (m['name'], m['function'], int(a), int(b) - 1)
    return out


def expected(x, off):
    """every column as its metadata describes it"""
    n = len(x)
    out = {}
    for c, (name, fun, a, b) in off.items():
        if fun not in FN:
            raise Violation('wrong-metadata', '{} is said to be the {}'.format(c, fun))
        v = x[name].values.astype(float)
        if fun == 'none':
            a = b           # a lag spaced by an aggregation window is the last value of that window
        w = np.full(n, np.nan)
        for i in range(max(0, -a), min(n, n - b)):
            if 0 <= i + a and i + b < n:
                w[i] = FN[fun](v[i + a:i + b + 1])
        out[c] = w
    return pd.DataFrame(out, index=x.index)


def anchored(x, md, dt):
    """rows whose lags all lead to rows of the table"""
    i = np.arange(len(x))
    ok = np.ones(len(x), bool)
    for m in md.to_dict('records'):
        if m['lag'] is not None and m['lag'] == m['lag']:
            j = i - int(m['lag']) * int(m['spacing_time'] / dt)
            ok &= (j >= 0) & (j < len(x))
    return ok


def check_metadata(sim, f, spec, md, columns, targets=False):
    cols = [c for c in columns]
    require(sim, 'wrong-metadata', set(md.index) == set(cols) and len(md) == len(cols),
            'metadata of {} against columns {}'.format(list(md.index)[:6], cols[:6]))
    for c, m in zip(md.index, md.to_dict('records')):
        t = (spec['targets'] if targets else spec['transformers'])[m['transformer']]
        require(sim, 'wrong-metadata', m['name'] in t['names'], '{} of {}'.format(c, m['name']))
        fs = [getattr(g, '__name__', g) for g in t['functions']] if t['functions'] else ['none']
        require(sim, 'wrong-metadata', m['function'] in fs and (m['function'] == 'none' or m['function'] in c),
                '{} is said to be the {}'.format(c, m['function']))
        if t['lags'] is not None and not (t['agg_bins'] and t['relative_lags']):
            require(sim, 'wrong-metadata', '_lag_' in c and int(c.split('_lag_')[1]) == m['lag'],
                    '{} is said to have lag {}'.format(c, m['lag']))


def check_tables(sim, f, spec, x, got, target, dt, what):
    md = declared(f)
    extra = [c for c in got.columns if c not in x.columns and c not in ('hour', 'dayofweek', 'minuteofday', 'utc_offset', 'holidays')]
    check_metadata(sim, f, spec, md, extra)
    want = expected(x, offsets(md, dt))
    ok = ~want.isna().any(axis=1)
    wt = None
    if target is not None:
        mt = declared(f, True)
        check_metadata(sim, f, spec, mt, list(target.columns), True)
        wt = expected(x, offsets(mt, dt))
        ok &= ~wt.isna().any(axis=1)
    # bins are worked out before they are lagged: the row they are lagged from has to be there as well
    least = ok & anchored(x, md, dt)
    if target is not None:
        least &= anchored(x, mt, dt)
    have = x.index.isin(got.index)
    require(sim, 'rows-differ', len(got) == have.sum() and list(got.index) == list(x.index[have]) and not (have & ~ok).any()
            and not (least & ~have).any(), '{}: rows {}...{} ({}) instead of {}...{} ({})'.format(
        what, got.index[:1], got.index[-1:], len(got), want.index[ok][:1], want.index[ok][-1:], ok.sum()))
    ok = have
    same(sim, 'feature-looks-elsewhere', got[list(want.columns)].values.astype(float), want[ok].values, '{}: features {}'.format(
        what, list(want.columns)), rtol=RT, atol=AT)
    if wt is not None:
        require(sim, 'rows-differ', list(target.index) == list(got.index), '{}: rows of the target'.format(what))
        same(sim, 'feature-looks-elsewhere', target[list(wt.columns)].values.astype(float), wt[ok].values, '{}: targets {}'.format(
            what, list(wt.columns)), rtol=RT, atol=AT)
    for c in x.columns:
        if c in got.columns:
            require(sim, 'feature-looks-elsewhere', np.array_equal(got[c].values.astype(float), x.loc[got.index, c].values.astype(float), equal_nan=True), '{}: column {} changed'.format(what, c))
    probe(sim, 'feature values checked', int(want[ok].size))


# ------------------------------------------------------------------------------------------------- operations
def failing(f):
    try:
        f()
    except (HarnessError, Violation, Discard, SimAbort):
        raise
    except BaseException as e:   # noqa
        return e


def arrivals(sim, x):
    """corrected, lost and late measurements"""
    x = x.copy()
    for _ in range(sim.between(1, 3, 'corrections')):
        c = sim.pick(list(x.columns), 'signal')
        i = sim.choose(len(x), 'from row')
        m = sim.pick([1, 2, 6], 'rows')
        what = sim.pick(['corrected', 'lost', 'corrected'], 'what happened')
        if what == 'lost':
            x[c] = x[c].astype(float)
            x.iloc[i:i + m, x.columns.get_loc(c)] = np.nan
            sim.fault('lost-measurements')
        else:
            x.iloc[i:i + m, x.columns.get_loc(c)] += sim.pick([50, -20, 7], 'by')
            sim.fault('corrected-measurements')
        sim.describe('{} {} rows from {} of {}'.format(what, m, i, c))
    return x


def prune(sim, f, got, dt):
    mt, md = declared(f, True), declared(f)
    if mt['transformer'].nunique() != 1:
        return
    k = sim.choose(len(mt), 'step')
    ts, te = mt['start_time'].iloc[k], mt['end_time'].iloc[k]
    method = sim.pick(['periodic', 'up_to', 'all'], 'pruning')
    P = pd.Timedelta(sim.pick(['6h', '24h', '1h'], 'period'))
    tol = pd.Timedelta(sim.pick(['1h', '0h', '30min'], 'tolerance'))
    n_lags, secs = sim.choose(4, 'keep lags'), sim.pick([0, 0, 3600, 7200], 'keep seconds')
    own = [c for c in ['hour', 'dayofweek'] if c in got.columns]
    sim.describe('prune at step {} {} {} {} {} {}'.format(k, method, P, tol, n_lags, secs))
    a, err = attempt(lambda: f.prune_dataset_at_stepahead(got.copy(), k, list(own), method=method, period=str(P), tol_period=str(tol),
                                                          keep_last_n_lags=n_lags, keep_last_seconds=secs))
    if err is not None:
        raise Violation('pruning-fails', repr(err))
    keep = []
    for c, m in zip(md.index, md.to_dict('records')):
        if method == 'periodic':
            ok = (ts - m['start_time']) % P <= tol or (te - m['end_time']) % P <= tol
        else:
            ok = method == 'all' or m['end_time'] <= te
        if n_lags and m['lag'] is not None and m['lag'] in range(n_lags):
            ok = True
        if secs and m['end_time'] <= pd.Timedelta(secs, unit='s') and m['end_time'] <= te:
            ok = True
        if ok:
            keep.append(c)
    same(sim, 'wrong-pruning', list(a.columns), keep + own, 'columns kept at step {}'.format(k))
    same(sim, 'wrong-pruning', a, got[keep + own], 'pruned table')


def folds(sim, f, spec, x, got, dt, kw):
    """corruption of what lies under the test rows must not reach the training rows, nor the other way round"""
    md = declared(f)
    back = -md['start_time'].min()
    if back < pd.Timedelta(0) or md['end_time'].max() > dt or len(got) < 8:
        return
    n_k, mult = sim.pick([3, 4, 2, 6], 'folds'), sim.pick([1, 2, 3], 'multiplier')
    idx = got.index
    window = (idx[-1] - idx[0]) / (n_k - 1)
    sim.describe('{} folds x {} over {} rows looking back {}'.format(n_k, mult, len(idx), back))
    gens = [f.time_kfcv(idx, n_k=n_k, multiplier_factor=mult) for _ in range(2)]
    if sim.chance(0.5, 'transform in between'):
        # the generator is used while the formatter does other things
        first, err = attempt(lambda: next(gens[0]))
        if err is None:
            f.transform(x.iloc[:-2].copy(), **kw)
            out, err = attempt(lambda: [first] + list(gens[0]))
    else:
        out, err = attempt(lambda: list(gens[0]))
    if err is not None:
        require(sim, 'folds-fail', back > window - dt, 'looking back {} with test folds of {}: {!r}'.format(back, window, err))
        return
    require(sim, 'wrong-folds', len(out) == n_k * mult, '{} folds'.format(len(out)))
    tested = np.zeros(len(idx), bool)
    for tr, te in out:
        tr, te = np.asarray(tr), np.asarray(te)
        require(sim, 'wrong-folds', tr.dtype == bool and te.dtype == bool and len(tr) == len(te) == len(idx) and te.any()
                and not (tr & te).any(), 'masks')
        a, b = idx[te][0], idx[te][-1]
        require(sim, 'wrong-folds', te[(idx >= a) & (idx <= b)].all() and b - a <= window and b - a >= window - 2 * dt, 'test rows')
        far = (idx < a - back - dt) | (idx > b + back + dt)
        near = (idx >= a - back) & (idx <= b + back)
        require(sim, 'fold-leaks', not (tr & near).any(), 'a training row within {} of the test rows {} to {}'.format(back, a, b))
        require(sim, 'wrong-folds', tr[far].all(), 'rows far from the test rows are not trained on')
        tested |= te
    require(sim, 'wrong-folds', tested.all(), 'rows {} are never tested'.format(list(idx[~tested][:3])))
    tr, te = [np.asarray(v) for v in out[sim.choose(len(out), 'fold')]]
    for side, mask, other in (('test', te, tr), ('training', tr, te)):
        if not mask.any() or not other.any():
            continue
        z = x.copy()
        rows = z.index.isin(idx[mask])
        for c in z.columns:
            z[c] = z[c].astype(float)
        z.loc[rows] += 31.0
        sim.fault('corrupted-{}-rows'.format(side))
        g = f.transform(z, **dict(kw, return_target=False))[0]
        cols = list(md.index)
        same(sim, 'fold-leaks', g.loc[idx[other], cols], got.loc[idx[other], cols],
             'the other rows when those of the {} rows are corrupted'.format(side), rtol=RT, atol=AT)


def remote(blob, x, kw):
    f = pickle.loads(blob)
    return f.transform(x, **kw), pickle.dumps(f)


def histories(sim):
    """windows with corrected and lost measurements, restarts and failures; each time every value as the metadata say"""
    cores(sim)
    r = rng(sim)
    dts = sim.pick(['1h', '20min', '15min', '6h'], 'sampling')
    dt = pd.Timedelta(dts)
    cols = ['a', 'b', 'c'][:sim.between(1, 3, 'columns')]
    spec = draw_spec(sim, cols, dts, causal=sim.chance(0.5, 'causal'))
    tz = sim.pick([None, 'Europe/Zurich', 'UTC'], 'tz')
    n = sim.between(45, 80, 'rows')
    x0 = fmt.signals(r, n, cols, dts, start=sim.pick(['2021-03-01', '2021-03-27', '2021-10-30', '2020-12-30'], 'start'), tz=tz,
                     ints=sim.chance(0.2, 'integers'))
    q = mean_quantum(sim)
    with_dt = sim.chance(0.4, 'explicit dt')
    sim.describe('{} rows tz={} quantum={} dt given={} {}'.format(n, tz, q, with_dt, fmt.describe(spec)))
    f = fmt.build(spec, n_parallel=sim.pick([None, 2, 3], 'n_parallel'), with_dt=with_dt)
    if with_dt and sim.chance(0.4, 'limits first'):
        f.get_time_lims()
        md = declared(f)
        first = offsets(md, dt)
    else:
        first = None
    x = x0
    with seams.threaded(q, opcodes=sim.chance(0.1, 'bytecode')):
        for k in range(sim.between(2, 5, 'windows')):
            if k:
                x = arrivals(sim, sim.pick([x0, x], 'on top of'))
            how = sim.pick(['none', 'none', 'pickle', 'copy', 'failing', 'remote'], 'in between')
            if how == 'pickle':
                sim.fault('restart')
                f = pickle.loads(pickle.dumps(f))
            elif how == 'copy':
                f = copy.deepcopy(f)
            elif how == 'failing':
                with seams.line_raiser(1 + sim.choose(80, 'line'), sim.pick([MemoryError, KeyboardInterrupt, ValueError], 'class')):
                    e = failing(lambda: f.transform(x.copy(), time_features=False))
                probe(sim, 'calls that failed', int(e is not None))
            a = sim.pick([0, 0, 5], 'first row')
            b = n - sim.pick([0, 0, 7], 'rows left out')
            w = x.iloc[a:b]
            kw = dict(time_features=sim.chance(0.3, 'time features'), return_target=sim.chance(0.7, 'targets'))
            with sim.quiet():
                g = fmt.build(spec, with_dt=with_dt)
                some, e = attempt(lambda: len(g._transform(w.copy(), time_features=False)[0]))
            if e is not None or not some:
                continue
            sim.ops += 1
            if how == 'remote':
                sim.fault('restart-other-process')
                (got, target), blob = child.other().call('sim.props.c18:remote', pickle.dumps(f), w.copy(), kw)
                f = pickle.loads(blob)
            elif sim.chance(0.4, 'parallel'):
                got, target = f._transform(w.copy(), parallel=True, **kw)
            else:
                got, target = f.transform(w.copy(), **kw)
            check_tables(sim, f, spec, w, got, target if kw['return_target'] else None, dt, 'window {}'.format(k))
            off = offsets(declared(f), dt)
            if first is None:
                first = off
            require(sim, 'wrong-metadata', off == first, 'the metadata change from window to window')
            lims = f.get_time_lims(extremes=False)
            for name in {o[0] for o in off.values()}:
                lo = min(o[2] for o in off.values() if o[0] == name) * dt
                hi = (max(o[3] for o in off.values() if o[0] == name) + 1) * dt
                require(sim, 'wrong-metadata', lims.loc[name, 'start_time'] == lo and lims.loc[name, 'end_time'] == hi,
                        'time limits of {}: {}'.format(name, list(lims.loc[name])))
            if kw['return_target'] and sim.chance(0.5, 'prune'):
                for _ in range(sim.between(1, 3, 'prunings')):
                    prune(sim, f, got, dt)
            if sim.chance(0.5, 'folds') and not w.isna().any().any():
                folds(sim, f, spec, w, got, dt, dict(kw, time_features=False))


def stacked(sim):
    """global form: the rows of a signal depend on that signal and the shared ones alone"""
    cores(sim)
    r = rng(sim)
    dts = sim.pick(fmt.FREQS, 'sampling')
    dt = pd.Timedelta(dts)
    sig = ['s{}'.format(i) for i in range(sim.between(1, 5, 'signals'))]
    shared = ['sa', 'sb'][:sim.between(0, 2, 'shared columns')]
    spec = global_spec(sim, dts, shared)
    spec['normalizers'], spec['norm'] = [], None
    n = sim.between(40, 60, 'rows')
    cols = sig + shared
    cols = [cols[i] for i in sim.perm(len(cols), 'order of the columns')]
    x = fmt.signals(r, n, cols, dts, tz=sim.pick([None, 'Europe/Zurich'], 'tz'))
    with_dt = sim.chance(0.4, 'explicit dt')
    f = fmt.build(spec, with_dt=with_dt)
    sim.describe('{} signals {} shared {} rows {}'.format(len(sig), len(shared), n, fmt.describe(spec)))
    for k in range(sim.between(1, 3, 'windows')):
        if k:
            x = arrivals(sim, x)
            if sim.chance(0.3, 'restart'):
                sim.fault('restart')
                f = pickle.loads(pickle.dumps(f))
        par = sim.chance(0.5, 'parallel')
        frames = {}
        with sim.quiet():
            g = fmt.build(spec, with_dt=with_dt)
            for s in sig:
                frames[s] = pd.concat([x[[s]].rename(columns={s: 'target'}), x[shared]], axis=1)
                some, e = attempt(lambda: len(g._transform(frames[s].copy(), time_features=False)[0]))
                if e is not None or not some:
                    raise Discard('windows too short')
        got, target = f.transform(x.copy(), time_features=False, global_form=True, parallel=par, reduce_memory=False)
        sim.ops += 1
        sim.describe('window {} parallel={}'.format(k, par))
        md, mt = declared(f), declared(f, True)
        off, oft = offsets(md, dt), offsets(mt, dt)
        names = list(dict.fromkeys(got['name'])) if 'name' in got.columns else None
        if names is None:
            require(sim, 'rows-differ', not spec['augment'], 'no names')
        else:
            require(sim, 'rows-differ', sorted(names) == sorted(sig), 'signals {}'.format(names))
        at = 0
        for s in [c for c in x.columns if c in sig]:
            want, wt = expected(frames[s], off), expected(frames[s], oft)
            ok = ~want.isna().any(axis=1) & ~wt.isna().any(axis=1)
            m = int(ok.sum())
            part, tp = got.iloc[at:at + m], target.iloc[at:at + m]
            at += m
            require(sim, 'rows-differ', list(part.index) == list(want.index[ok]) and list(tp.index) == list(part.index)
                    and (names is None or (part['name'] == s).all()), 'rows of {}'.format(s))
            same(sim, 'feature-looks-elsewhere', part[list(want.columns)].values.astype(float), want[ok].values, 'features of {}'.format(s),
                 rtol=RT, atol=AT)
            same(sim, 'feature-looks-elsewhere', tp[list(wt.columns)].values.astype(float), wt[ok].values, 'targets of {}'.format(s),
                 rtol=RT, atol=AT)
        require(sim, 'rows-differ', at == len(got) == len(target), '{} rows instead of {}'.format(len(got), at))


def threads(sim):
    """several threads use one formatter: windows, limits, pruning and folds"""
    cores(sim)
    r = rng(sim)
    dts = sim.pick(['1h', '15min'], 'sampling')
    dt = pd.Timedelta(dts)
    cols = ['a', 'b', 'c'][:sim.between(1, 3, 'columns')]
    spec = draw_spec(sim, cols, dts, causal=sim.chance(0.5, 'causal'))
    n = sim.between(45, 60, 'rows')
    x0 = fmt.signals(r, n, cols, dts)
    with_dt = sim.chance(0.3, 'explicit dt')
    f = fmt.build(spec, n_parallel=sim.pick([None, 2], 'n_parallel'), with_dt=with_dt)
    before = sim.chance(0.5, 'used before')
    with sim.quiet():
        ref = fmt.build(spec, with_dt=with_dt)
        some, e = attempt(lambda: ref._transform(x0.copy(), time_features=False))
        if e is not None or len(some[0]) < 6:
            raise Discard('windows too short')
        lims = ref.get_time_lims(include_target=True, extremes=False)
        off = offsets(declared(ref), dt)
        if before:
            f._transform(x0.copy(), time_features=False)
    jobs, kinds, wins = [], [], []
    for k in range(sim.between(2, 3, 'threads')):
        kind = sim.pick(['transform', 'transform', 'parallel'] + (['limits', 'prune', 'folds'] if before else []), 'what')
        w = arrivals(sim, x0).iloc[sim.choose(4, 'from'):] if sim.chance(0.6, 'other window') else x0
        step = sim.choose(len(some[1].columns), 'step')
        jobs.append({'transform': lambda w=w: f.transform(w.copy(), time_features=False),
                     'parallel': lambda w=w: f._transform(w.copy(), time_features=False, parallel=True),
                     'limits': lambda: f.get_time_lims(include_target=True, extremes=False),
                     'prune': lambda s=step: f.prune_dataset_at_stepahead(some[0], s, [], method='up_to'),
                     'folds': lambda: list(f.time_kfcv(some[0].index, n_k=2))}[kind])
        kinds.append((kind, step))
        wins.append(w)
    q = mean_quantum(sim)
    sim.describe('threads {} used before={} quantum={} {}'.format(kinds, before, q, fmt.describe(spec)))
    with sim.quiet():
        wants = []
        for (kind, s), w in zip(kinds, wins):
            if kind == 'prune':
                wants.append(attempt(lambda: ref.prune_dataset_at_stepahead(some[0], s, [], method='up_to')))
            elif kind == 'folds':
                wants.append(attempt(lambda: list(ref.time_kfcv(some[0].index, n_k=2))))
            elif kind == 'limits':
                wants.append((lims, None))
            else:
                wants.append(attempt(lambda: fmt.build(spec, with_dt=with_dt)._transform(w.copy(), time_features=False)))
    out = seams.concurrently(jobs, mean_quantum=q, opcodes=sim.chance(0.05, 'bytecode'))
    sim.ops += len(jobs)
    for (kind, s), w, (want, we), (got, e) in zip(kinds, wins, wants, out):
        if we is not None:
            continue
        if e is not None:
            raise Violation('concurrent-call-failed', '{}: {!r}'.format(kind, e))
        if kind in ('transform', 'parallel'):
            same(sim, 'feature-looks-elsewhere', got[0], want[0], 'features of a thread', rtol=RT, atol=AT)
            same(sim, 'feature-looks-elsewhere', got[1], want[1], 'targets of a thread', rtol=RT, atol=AT)
        elif kind == 'limits':
            same(sim, 'wrong-metadata', got, want, 'time limits')
        elif kind == 'prune':
            same(sim, 'wrong-pruning', got, want, 'pruned next to others')
        else:
            require(sim, 'wrong-folds', len(got) == len(want) and all(np.array_equal(a, b) for g, h in zip(got, want)
                                                                     for a, b in zip(g, h)), 'folds next to others')
    require(sim, 'wrong-metadata', offsets(declared(f), dt) == off, 'metadata after the threads')


SCENARIOS = [('histories', histories, 3), ('stacked', stacked, 1), ('threads', threads, 1)]
