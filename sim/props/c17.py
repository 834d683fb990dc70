"""C17: normalisation touches the target and what is derived from it, and is undone exactly, whatever came before."""
import copy
import pickle

import numpy as np
import pandas as pd

from .. import child, fmt, seams
from ..core import Discard, HarnessError, SimAbort, Violation
from ..gen import attempt, cores, mean_quantum, probe, require, rng, same

PROP = 'C17'
RT, AT = 1e-7, 1e-7
EXPRS = {
    'standard': ([('mean', 'mn', None), ('std', 'sd', None)], '(df[t] - df["mn"]) / (df["sd"] + 1)', 'df[t] * (df["sd"] + 1) + df["mn"]'),
    'lagged': ([('mean', 'mn', 2)], 'df[t] - df["mn"]', 'df[t] + df["mn"]'),
    'ratio': ([('max', 'mx', None)], 'df[t] / (np.abs(df["mx"]) + 1)', 'df[t] * (np.abs(df["mx"]) + 1)'),
    'asinh': ([('min', 'lo', None), ('max', 'hi', 1)], 'np.arcsinh(df[t] - df["lo"]) + df["hi"]', 'np.sinh(df[t] - df["hi"]) + df["lo"]'),
}


def prepare():
    child.start()
    import pyforecaster.forecaster   # noqa


def draw(sim):
    cols = ['a', 'b', 'c'][:sim.between(1, 3, 'columns')]
    dt = sim.pick(['1h', '20min', '15min'], 'sampling')
    tc = cols[sim.choose(len(cols), 'target column')]
    spec = fmt.draw_spec(sim, cols, dt, max_tr=4, causal=sim.chance(0.7, 'causal'), normalizers=False, target_col=tc)
    if len(cols) > 1 and sim.chance(0.3, 'second target'):
        other = [c for c in cols if c != tc][0]
        spec['targets'][0]['names'] = [tc, other] if sim.chance(0.5, 'target first') else [other, tc]
    kind = sim.pick(sorted(EXPRS), 'expression')
    norms, expr, inv = EXPRS[kind]
    fr = fmt.hm(sim.pick([3, 5, 8], 'norm-steps') * fmt.STEP[dt])
    for fn, name, lag in norms:
        n = dict(target=tc, function=fn, agg_freq=fr, name=name)
        if lag:
            n['lags'] = np.array([lag])
        spec['normalizers'].append(n)
    spec['norm'] = (expr, inv)
    sim.describe('normalise {} ({}) over {} {}'.format(tc, kind, fr, fmt.describe(spec)))
    return cols, dt, tc, spec


def value(expr, df, t):
    return eval(expr, {'np': np, 'df': df, 't': t})   # noqa


class Reference:
    """a formatter that does not normalise, and the expression worked out here"""
    def __init__(self, spec, tc):
        self.spec, self.tc = spec, tc

    def normalizers(self, x):
        from pyforecaster.formatter import Formatter
        out = {}
        for n in self.spec['normalizers']:
            f = Formatter(augment=False).add_transform([n['target']], functions=[n['function']], agg_freq=n['agg_freq'], lags=n.get('lags'))
            v, _ = f.transform(x.copy(), time_features=False, return_target=False)
            require_one = list(v.columns)
            if len(require_one) != 1:
                raise HarnessError('normaliser gives columns {}'.format(require_one))
            out[n['name']] = v.iloc[:, 0].reindex(x.index)
        return pd.DataFrame(out)

    def transform(self, x, with_target):
        """features, normalised targets, targets"""
        f = fmt.build(dict(self.spec, normalizers=[], norm=None))
        # no rows are dropped for the sake of targets here
        xp, yp = f.transform(x.copy(), time_features=False, return_target=with_target)
        nz = self.normalizers(x)
        ok = nz.notna().all(axis=1)
        idx = [t for t in xp.index if ok[t]]
        xp, nz = xp.loc[idx], nz.loc[idx]
        derived = {c for tr in f.transformers for c, n in tr.metadata['name'].items() if n == self.tc}
        feats = pd.concat([xp, nz], axis=1)
        for c in derived:
            feats[c] = value(self.spec['norm'][0], pd.concat([xp, nz], axis=1), c)
        if not with_target:
            return feats, None, None
        yp = yp.loc[idx]
        mine = {c for tr in f.target_transformers for c, n in tr.metadata['name'].items() if n == self.tc}
        return feats, self.apply(self.spec['norm'][0], yp, nz, mine), yp

    def mine(self, f):
        return {c for tr in f.target_transformers for c, n in tr.metadata['name'].items() if n == self.tc}

    def apply(self, expr, y, nz, mine):
        both = pd.concat([y, nz], axis=1)
        return pd.DataFrame({c: value(expr, both, c) if c in mine else y[c] for c in y.columns}, index=y.index)


def check_transform(sim, ref, x, got, with_target, what):
    with sim.quiet():
        feats, yn, yp = ref.transform(x, with_target)
    gx, gy = got
    require(sim, 'wrong-rows', list(gx.index) == list(feats.index), '{}: {} rows instead of {}'.format(what, len(gx), len(feats)))
    require(sim, 'wrong-features', set(gx.columns) == set(feats.columns) and len(gx.columns) == len(feats.columns),
            '{}: columns {} instead of {}'.format(what, sorted(gx.columns), sorted(feats.columns)))
    for c in feats.columns:
        same(sim, 'wrong-features', gx[c].values.astype(float), feats[c].values.astype(float), '{}: feature {}'.format(what, c), rtol=RT, atol=AT)
    if with_target:
        same(sim, 'wrong-targets', list(gy.columns), list(yn.columns), what + ': target labels')
        same(sim, 'wrong-targets', gy.values.astype(float), yn.values.astype(float), what + ': normalised targets', rtol=RT, atol=AT)
    return yp


def disturbed(sim, f):
    with seams.line_raiser(1 + sim.choose(200, 'line'), sim.pick([MemoryError, KeyboardInterrupt, ValueError], 'class')):
        try:
            f()
        except (HarnessError, Violation, Discard, SimAbort):
            raise
        except BaseException as e:   # noqa
            probe(sim, 'calls that failed')
            return e


def draw_forecast(sim, r, f, ref, gx, gy, yp):
    """(x, forecasts in normalised units, what they are in the target's units)"""
    n = len(gx)
    how = sim.pick(['the targets', 'others', 'quantiles', 'quantiles'], 'what')
    rows = sim.pick(['all', 'some', 'one', 'shuffled'], 'rows')
    k = {'all': np.arange(n), 'some': np.sort(r.choice(n, max(1, n // 2), replace=False)), 'one': r.choice(n, 1),
         'shuffled': r.permutation(n)}[rows]
    x, y = gx.iloc[k], gy.iloc[k]
    nz = x[[m['name'] for m in ref.spec['normalizers']]]
    mine = ref.mine(f)
    inv = ref.spec['norm'][1]
    sim.describe('denormalise {} of {} rows ({})'.format(how, len(k), rows))
    if how == 'the targets':
        return x, y, yp.iloc[k]
    if how == 'others':
        y = y + r.standard_normal(y.shape) * 0.3
        return x, y, ref.apply(inv, y, nz, mine)
    taus = sim.pick([[0.1, 0.5, 0.9], [0.5], [0.2, 0.8]], 'levels')
    qs = {tau: y + (tau - 0.5) * 0.2 for tau in taus}
    want = {tau: ref.apply(inv, q, nz, mine) for tau, q in qs.items()}
    cols = [(c, tau) for c in y.columns for tau in taus]
    if sim.chance(0.3, 'levels outside'):
        cols = [(c, tau) for tau in taus for c in y.columns]

    def table(d):
        return pd.DataFrame({c: d[c[1]][c[0]] for c in cols}, index=y.index, columns=pd.MultiIndex.from_tuples(cols))
    return x, table(qs), table(want)


def check_denormalised(sim, got, want, what='denormalised'):
    require(sim, 'not-undone', list(got.index) == list(want.index) and list(got.columns) == list(want.columns),
            '{}: labels {} instead of {}'.format(what, list(got.columns)[:4], list(want.columns)[:4]))
    same(sim, 'not-undone', got.values.astype(float), want.values.astype(float), what, rtol=1e-6, atol=1e-6)


def remote(blob, what, args):
    f = pickle.loads(blob)
    return getattr(f, what)(*args[0], **args[1]), pickle.dumps(f)


def histories(sim):
    cores(sim)
    r = rng(sim)
    cols, dt, tc, spec = draw(sim)
    tz = sim.pick([None, 'Europe/Zurich'], 'tz')
    n = sim.pick([60, 90], 'rows')
    x = fmt.signals(r, n, cols, dt, tz=tz, start=sim.pick(['2021-03-01', '2021-10-29'], 'start'), ints=sim.chance(0.2, 'integers'))
    f = fmt.build(spec)
    ref = Reference(spec, tc)
    known = []                   # (features, normalised targets, targets)
    saved = []
    for k in range(sim.between(3, 8, 'calls')):
        op = sim.pick(['transform', 'denormalise', 'denormalise', 'transform', 'copy', 'pickle', 'crash', 'failing', 'forecaster'], 'op') \
            if known else 'transform'
        remote_ = sim.chance(0.15, 'in another process')
        if op == 'copy':
            f = copy.deepcopy(f)
        elif op == 'pickle':
            saved.append(pickle.dumps(f))
            f = pickle.loads(saved[-1])
        elif op == 'crash':
            if saved:
                f = pickle.loads(sim.pick(saved, 'checkpoint'))
                sim.fault('crash-restore')
        elif op == 'transform':
            i = sim.choose(n // 2, 'from') if sim.chance(0.5, 'window') else 0
            w = x.iloc[i:]
            if sim.chance(0.3, 'corrected'):
                sim.fault('corrected-rows')
                w = w.copy()
                w.iloc[sim.choose(len(w), 'corrected row')] += 4
            with_target = not known or not sim.chance(0.25, 'features only')
            kw = dict(time_features=False, return_target=with_target, parallel=sim.chance(0.3, 'parallel'))
            sim.describe('transform rows {}.. {}'.format(i, kw))
            sim.ops += 1
            if remote_ and known:
                sim.fault('restart-other-process')
                out, b = child.other().call('sim.props.c17:remote', pickle.dumps(f), 'transform', ((w,), dict(kw, parallel=False)))
                f = pickle.loads(b)
            else:
                with seams.threaded(mean_quantum(sim)):
                    out = f.transform(w.copy(), **kw)
            yp = check_transform(sim, ref, w, out, with_target, 'rows {}..'.format(i))
            if not known and not len(out[0]):
                raise Discard('no rows left')
            if with_target and len(out[0]):
                known.append(out + (yp,))
        elif op == 'failing':
            gx, gy, yp = sim.pick(known, 'data')
            which = sim.pick(['transform', 'denormalise'], 'which call')
            e = disturbed(sim, lambda: f.transform(x.copy(), time_features=False) if which == 'transform' else f.denormalize(gx.copy(), gy.copy()))
            sim.describe('{} fails: {}'.format(which, type(e).__name__))
            if which == 'transform' and e is not None:
                # features are computed again before anything is asked of them
                f.transform(x.copy(), time_features=False)
        elif op == 'forecaster':
            from pyforecaster.forecaster import LinearForecaster
            gx, gy, yp = sim.pick(known, 'data')
            if len(gx) < 40:
                continue
            with sim.quiet():
                num = gx
                bare, e = attempt(lambda: LinearForecaster().fit(num.copy(), gy.copy()).predict(num.copy()))
            m, e2 = attempt(lambda: LinearForecaster(formatter=f).fit(num.copy(), gy.copy()))
            if e is not None or e2 is not None:
                probe(sim, 'forecasters that could not be fitted')
                continue
            if sim.chance(0.5, 'pickled forecaster'):
                m = pickle.loads(pickle.dumps(m))
            bare = pd.DataFrame(np.asarray(bare), index=gx.index, columns=gy.columns)
            want = ref.apply(spec['norm'][1], bare, gx[[z['name'] for z in spec['normalizers']]], ref.mine(f))
            k = sim.choose(len(gx), 'from')
            got = m.predict(num.iloc[k:].copy())
            sim.ops += 1
            same(sim, 'forecast-not-in-target-units', np.asarray(got, float), want.values[k:].astype(float), 'forecasts', rtol=1e-6, atol=1e-6)
        else:
            gx, gy, yp = sim.pick(known, 'data')
            xx, yy, want = draw_forecast(sim, r, f, ref, gx, gy, yp)
            sim.ops += 1
            if remote_:
                sim.fault('restart-other-process')
                got, b = child.other().call('sim.props.c17:remote', pickle.dumps(f), 'denormalize', ((xx, yy), {}))
                f = pickle.loads(b)
            else:
                got = f.denormalize(xx.copy(), yy.copy())
            check_denormalised(sim, got, want)


def threads(sim):
    """several threads undo the normalisation with one formatter"""
    cores(sim)
    r = rng(sim)
    cols, dt, tc, spec = draw(sim)
    x = fmt.signals(r, 60, cols, dt)
    f = fmt.build(spec)
    ref = Reference(spec, tc)
    with sim.quiet():
        gx, gy = f.transform(x.copy(), time_features=False)
        _, _, yp = ref.transform(x, True)
    if not len(gx):
        raise Discard('no rows left')
    require(sim, 'wrong-rows', list(gx.index) == list(yp.index), 'rows')
    jobs = [draw_forecast(sim, r, f, ref, gx, gy, yp) for _ in range(sim.between(2, 4, 'threads'))]
    got = seams.concurrently([lambda a=a, b=b: f.denormalize(a, b) for a, b, _ in jobs], mean_quantum=mean_quantum(sim),
                             opcodes=sim.chance(0.05, 'bytecode'))
    for (a, b, want), (v, e) in zip(jobs, got):
        sim.ops += 1
        if e is not None:
            raise Violation('concurrent-call-failed', repr(e))
        check_denormalised(sim, v, want, 'denormalised in a thread')


SCENARIOS = [('histories', histories, 5), ('threads', threads, 2)]
