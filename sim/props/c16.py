"""C16: hierarchical forecasts add up, belong to the series they are labelled with and are those of the reconciliation fitted."""
import contextlib
import copy
import io
import pickle

import numpy as np
import pandas as pd

from .. import child, seams
from ..core import Discard, HarnessError, SimAbort, Violation
from ..gen import cores, mean_quantum, probe, require, rng, same

PROP = 'C16'
RT, AT = 1e-6, 1e-6


def prepare():
    child.start()
    import pyforecaster.reconciliation.reconciliation   # noqa


# ------------------------------------------------------------------------------------------------- drawing
def draw_hierarchy(sim):
    """(hierarchy, bottom series): a tree of groups, uneven ones included; groups may be listed in any order"""
    n = sim.between(2, 6, 'bottom series')
    style = sim.pick(['b{}', 'meter {}', 'z{}', 'int'], 'names')
    bottom = [i if style == 'int' else style.format(i) for i in range(n)]
    groups = {}

    def grow(members, depth):
        name = '{}{}'.format('s_' if style != 'z{}' else 'A_', len(groups))
        groups[name] = None
        kids = []
        rest = list(members)
        while rest:
            k = len(rest) if len(rest) < 3 else 1 + sim.choose(len(rest), 'group size')
            part, rest = rest[:k], rest[k:]
            if 2 <= len(part) < len(members) and depth < 3 and sim.chance(0.7, 'own aggregate'):
                kids.append(grow(part, depth + 1))
            else:
                kids.extend(part)
        groups[name] = kids
        return name
    order = sim.perm(n, 'order of the bottom series')
    grow([bottom[i] for i in order], 0)
    names = list(groups)
    names = [names[i] for i in sim.perm(len(names), 'order of the groups')]
    return {k: groups[k] for k in names}, bottom


def leaves(h, k):
    out = []
    for c in h[k]:
        out.extend(leaves(h, c) if c in h else [c])
    return out


def depth(h, root):
    out = {root: 0}
    todo = [root]
    while todo:
        k = todo.pop()
        for c in h[k]:
            out[c] = out[k] + 1
            if c in h:
                todo.append(c)
    return out


class Setup:
    """what a reconciler is built from and fitted on"""
    def __init__(self, sim, what=''):
        self.h, self.bottom = draw_hierarchy(sim)
        self.names = list(self.h) + self.bottom
        self.method = sim.pick(['minT', 'minT', 'dummy'], 'method')
        self.base = sim.pick(['linear', 'linear', 'linear', 'lgb'], 'base forecaster')
        self.kw = {}
        if self.base == 'lgb':
            self.kw = dict(n_estimators=3, num_leaves=4, n_jobs=1, n_jobs_predict=1)
        elif sim.chance(0.2, 'validation split'):
            self.kw = dict(val_ratio=0.3)
        self.steps = sim.pick([2, 1, 3], 'steps')
        self.labels = ['t{}'.format(k) for k in (reversed(range(self.steps)) if sim.chance(0.3, 'labels descending') else range(self.steps))]
        self.n_scen = sim.between(3, 6, 'scenarios')
        self.q = np.array(sim.pick([[0.1, 0.5, 0.9], [0.2, 0.8]], 'quantile levels'))
        self.tz = sim.pick([None, None, None, 'Europe/Zurich'], 'time zone')
        sim.describe('{}hierarchy {} bottom {} {} {} {} steps {} scenarios {} levels {} tz {}'.format(
            what, self.h, self.bottom, self.method, self.base, self.kw, self.labels, self.n_scen, list(self.q), self.tz))

    def build(self):
        from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation
        from pyforecaster.forecaster import LinearForecaster, LGBForecaster
        return HierarchicalReconciliation(copy.deepcopy(self.h), method=self.method, n_scenarios=self.n_scen, q_vect=self.q.copy(),
                                          base_forecaster_class=self.forecaster(), **copy.deepcopy(self.kw))

    def forecaster(self):
        from pyforecaster.forecaster import LinearForecaster, LGBForecaster
        return {'linear': LinearForecaster, 'lgb': LGBForecaster}[self.base]

    def rows(self, r, n, start):
        """{series: features}, {series: targets} by time"""
        idx = pd.date_range(start, periods=n, freq='1h', tz=self.tz)
        t = np.arange(n + self.steps + 1)
        raw = {}
        for i, b in enumerate(self.bottom):
            raw[b] = 5.0 * (i + 1) + 2 * np.sin(2 * np.pi * t / 24 + i) + np.cumsum(r.standard_normal(len(t))) * 0.3
        for k in self.h:
            # the aggregates have their own meters
            raw[k] = sum(raw[b] for b in leaves(self.h, k)) + 0.2 * r.standard_normal(len(t))
        x, y = {}, {}
        for k, v in raw.items():
            x[k] = pd.DataFrame({'lag': v[:n], 'diff': np.diff(v[:n + 1]) * 0 + np.roll(v[:n], 1), 'hour': idx.hour * 1.0}, index=idx)
            y[k] = pd.DataFrame({l: v[1 + j:1 + j + n] for j, l in enumerate(self.labels)}, index=idx)
        return x, y


def arrive(x, y, names, r, how):
    """the rows of all the series in one frame, in one of the orders they arrive in"""
    fs = []
    for k in names:
        d = x[k].copy()
        d['name'] = pd.Series([k] * len(d), index=d.index, dtype=object)
        if y is not None:
            d = pd.concat([d, y[k].add_prefix('y_')], axis=1)
        fs.append(d)
    f = pd.concat(fs)
    if how == 'by time':
        f = f.iloc[np.argsort(f.index.values, kind='stable')]
    elif how == 'mixed':
        f = f.iloc[r.permutation(len(f))]
    ys = [c for c in f.columns if str(c).startswith('y_')]
    return f.drop(columns=ys), f[ys].rename(columns=lambda c: c[2:])


# ------------------------------------------------------------------------------------------------- the reference
class Reference:
    """the forecasters of the levels one by one, and the projection computed here"""
    def __init__(self, su, x, y):
        self.su = su
        self.models = {}
        for k in su.h:
            self.models[k] = su.forecaster()(**copy.deepcopy(su.kw)).fit(x[k].copy(), y[k].copy())
        xb, yb = (pd.concat([d[b] for b in su.order]) for d in (x, y))
        m = su.forecaster()(**copy.deepcopy(su.kw)).fit(xb, yb)
        for b in su.bottom:
            self.models[b] = m
        hat = self.base(x)
        tr = pd.concat(y, axis=1)
        self.s = np.array([[1.0 if b in leaves(su.h, k) else 0.0 for b in su.bottom] for k in su.h] + list(np.eye(len(su.bottom))))
        self.p = {}
        for l in su.labels:
            e = np.stack([(tr[(k, l)] - hat[(k, l)]).values for k in su.names], axis=1)
            w = np.eye(len(su.names))
            if su.method == 'minT':
                c = np.cov(e.T, bias=True)
                w = np.linalg.inv(0.9 * c + 0.1 * np.trace(c) / len(c) * np.eye(len(c)))
            self.p[l] = self.s @ np.linalg.solve(self.s.T @ w @ self.s, self.s.T @ w)
        self.errs_hat = tr - hat[tr.columns]
        rec = self.reconciled(hat)
        self.errs = tr - rec[tr.columns]
        self.y = tr

    def base(self, x):
        return pd.concat({k: pd.DataFrame(np.asarray(self.models[k].predict(x[k].copy())), index=x[k].index, columns=self.su.labels)
                          for k in self.su.names}, axis=1)

    def quantiles(self, x):
        out = {}
        for k in self.su.names:
            out[k] = self.models[k].predict_quantiles(x[k].copy())
        return pd.concat(out, axis=1)

    def reconciled(self, hat):
        out = {}
        for l in self.su.labels:
            v = hat[[(k, l) for k in self.su.names]].values @ self.p[l].T
            for i, k in enumerate(self.su.names):
                out[(k, l)] = pd.Series(v[:, i], index=hat.index)
        return pd.concat(out, axis=1)


def labelled(got, want, what):
    """the values in the reference's places; an extra, missing or doubled label is a violation"""
    for ax in (0, 1):
        g, w = got.axes[ax], want.axes[ax]
        if len(g) != len(w) or set(g) != set(w):
            raise Violation('labels', '{}: {} labels {} instead of {}'.format(what, 'row' if ax == 0 else 'column',
                                                                          list(g)[:4], list(w)[:4]))
    return got.loc[want.index, list(want.columns)].values.astype(float)


def check_answer(sim, su, ref, what, got, x):
    """one answer against the reference"""
    hat = ref.base(x)
    rec = ref.reconciled(hat)
    kind, how = what
    if kind == 'predict':
        want = rec if how == 'reconciled' else hat
        same(sim, 'forecast-differs', labelled(got, want, '{} {}'.format(*what)), want.values, '{} forecasts'.format(how), rtol=RT, atol=AT)
        if how == 'reconciled':
            for l in su.labels:
                for k in su.h:
                    same(sim, 'incoherent', got[(k, l)].values, sum(got[(b, l)].values for b in leaves(su.h, k)),
                         '{} and its series at {}'.format(k, l), rtol=1e-7, atol=1e-7)
    elif kind == 'scenarios':
        centre, pool = (rec, ref.errs) if how == 'reconciled' else (hat, ref.errs_hat)
        cols = list(centre.columns)
        pool = pool[cols]
        names = sorted(set(got.columns.get_level_values(1)))
        require(sim, 'labels', len(names) == su.n_scen, '{} scenarios instead of {}'.format(len(names), su.n_scen))
        require(sim, 'labels', len(got) == len(centre) and set(got.index) == set(centre.index), 'the scenarios are for other rows')
        require(sim, 'labels', got.shape[1] == su.n_scen * len(cols), '{} columns'.format(got.shape[1]))
        got = got.loc[centre.index]
        seen = set()
        for s in names:
            g = np.stack([got[(k, s, l)].values for k, l in cols], axis=1) - centre.values
            for i, t in enumerate(centre.index):
                p = pool.values[pool.index.hour == t.hour]
                d = np.abs(p - g[i]).max(axis=1)
                j = int(np.argmin(d))
                sim.compared += 1
                if not d[j] <= 1e-5:
                    raise Violation('scenario-not-from-errors', '{} scenario {} at {} is {:.3g} away from any forecast plus observed error'.format(
                        how, s, t, d[j]))
                seen.add((t.hour, j))
            if how == 'reconciled' and su.coherent_errors:
                for l in su.labels:
                    for k in su.h:
                        same(sim, 'incoherent', got[(k, s, l)].values, sum(got[(b, s, l)].values for b in leaves(su.h, k)),
                             'scenario {} of {} and its series at {}'.format(s, k, l), rtol=1e-6, atol=1e-6)
        draws = len(centre) * su.n_scen
        if draws >= 60:
            require(sim, 'scenarios-not-drawn', len(seen) > len(set(centre.index.hour)),
                    'one error each for all the {} draws'.format(draws))
    elif kind == 'quantiles':
        if how == 'vanilla':
            want = ref.quantiles(x)
            same(sim, 'forecast-differs', labelled(got, want, 'base quantiles'), want.values, 'base quantiles', rtol=RT, atol=AT)
            return
        require(sim, 'labels', got.shape == (len(rec), rec.shape[1] * len(su.q)) and set(got.index) == set(rec.index),
                'quantiles of shape {} for {} rows'.format(got.shape, len(rec)))
        got = got.loc[rec.index]
        for k, l in rec.columns:
            v = np.stack([got[(k, l, a)].values for a in su.q], axis=1)
            for i, t in enumerate(rec.index):
                p = ref.errs[(k, l)].values[ref.errs.index.hour == t.hour] + rec[(k, l)].values[i]
                sim.compared += 1
                if not (np.diff(v[i]) >= -1e-9).all() or v[i].min() < p.min() - 1e-5 or v[i].max() > p.max() + 1e-5:
                    raise Violation('quantiles-outside-errors', 'quantiles {} of {} at {} {}: the errors reach from {:.4g} to {:.4g}'.format(
                        v[i], k, t, l, p.min(), p.max()))


QUESTIONS = [('predict', 'reconciled'), ('predict', 'vanilla'), ('scenarios', 'reconciled'), ('predict', 'reconciled'),
             ('scenarios', 'vanilla'), ('quantiles', 'reconciled'), ('quantiles', 'vanilla')]


def ask(m, what, f):
    kind, how = what
    g = {'predict': m.predict, 'scenarios': m.predict_scenarios, 'quantiles': m.predict_quantiles}[kind]
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return g(f, method=how)


def remote(blob, what, f, seed):
    np.random.seed(seed)
    m = pickle.loads(blob)
    return ask(m, what, f), pickle.dumps(m)


def fit(m, f, g):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return m.fit(f, g)


def failing(f):
    try:
        f()
    except (HarnessError, Violation, Discard, SimAbort):
        raise
    except BaseException as e:   # noqa
        return e


def training(sim, su, what='training rows'):
    """frames as they arrive, with the reference"""
    r = rng(sim, what)
    n = sim.pick([60, 100, 80], what) + (60 if su.kw.get('val_ratio') else 0)
    x, y = su.rows(r, n, '2021-03-01 05:00')
    exact = sim.chance(0.5, 'aggregates are sums')
    su.coherent_errors = exact
    if exact:
        for k in su.h:
            y[k] = sum(y[b] for b in leaves(su.h, k))
    su.order = [su.bottom[i] for i in sim.perm(len(su.bottom), 'arrival of the series')]
    names = [su.names[i] for i in sim.perm(len(su.names), 'arrival of all')]
    names = [k for k in names if k in su.h] + su.order if sim.chance(0.5, 'aggregates first') else \
        su.order + [k for k in names if k in su.h]
    how = sim.pick(['by series', 'by series', 'by time', 'mixed'], 'arrival') if su.base == 'linear' and not su.kw else 'by series'
    f, g = arrive(x, y, names, r, how)
    sim.describe('{}: {} {}, arriving {}: {}'.format(what, n, 'exact' if exact else 'metered', how, names))
    with sim.quiet():
        ref = Reference(su, x, y)
    return f, g, ref, (x, y)


def stretch(sim, su, seen, asked=None):
    """rows asked about: (features by series, the frame as it arrives)"""
    r = rng(sim, 'stretch')
    if asked and sim.chance(0.4, 'asked before'):
        # the same hours once more; the measurements may have been corrected since
        x, way = sim.pick(asked, 'which')
        x = {k: v.copy() for k, v in x.items()}
        if sim.chance(0.6, 'corrected'):
            sim.fault('corrected-rows')
            for v in x.values():
                i = sim.choose(len(v), 'corrected row')
                v.iloc[i, 0] += 7.0
        return x, sent(sim, su, x, r, way if sim.chance(0.5, 'as before') else None)
    where = sim.pick(['new', 'new', 'training', 'one row', 'gaps'], 'stretch')
    n = sim.pick([5, 30, 2, 70], 'rows')
    if where == 'training':
        x = {k: v.iloc[:n] if n < 60 else v for k, v in seen[0].items()}
    else:
        x, _ = su.rows(r, max(n, 3), '2021-06-{:02d} {:02d}:00'.format(1 + sim.choose(20, 'day'), sim.choose(24, 'hour')))
        if where == 'one row':
            x = {k: v.iloc[:1] for k, v in x.items()}
        elif where == 'gaps':
            x = {k: v.iloc[::2] for k, v in x.items()}
    sim.describe('rows: {} {}'.format(len(next(iter(x.values()))), where))
    way = arrival(sim, su)
    if asked is not None:
        asked.append((x, way))
    return x, sent(sim, su, x, r, way)


def arrival(sim, su):
    return [su.names[i] for i in sim.perm(len(su.names), 'arrival of the rows')], sim.pick(['by series', 'by time', 'mixed'], 'arrival')


def sent(sim, su, x, r, way=None):
    names, how = way or arrival(sim, su)
    sim.describe('{} rows arrive {}: {}'.format(len(next(iter(x.values()))), how, names))
    return arrive(x, None, names, r, how)[0]


def check_errors(sim, m, ref):
    for name, want in (('errs_hat', ref.errs_hat), ('errs_tilde', ref.errs)):
        got = getattr(m, name)
        same(sim, 'training-errors', labelled(got, want, name), want.values, name, rtol=RT, atol=AT)


def histories(sim):
    """questions in any order, about any rows, between restarts and failures"""
    cores(sim)
    su = Setup(sim)
    f, g, ref, seen = training(sim, su)
    m = fit(su.build(), f.copy(), g.copy())
    check_errors(sim, m, ref)
    saved = [pickle.dumps(m)]
    asked = []
    for _ in range(sim.between(3, 8, 'calls')):
        op = sim.pick(['ask', 'ask', 'ask', 'ask', 'copy', 'pickle', 'crash', 'remote', 'other', 'failing', 'kpis'], 'op')
        if op == 'copy':
            m = copy.deepcopy(m)
            sim.describe('continue on a deep copy')
            continue
        if op == 'pickle':
            saved.append(pickle.dumps(m))
            m = pickle.loads(saved[-1])
            sim.describe('continue on a pickled copy')
            continue
        if op == 'crash':
            m = pickle.loads(sim.pick(saved, 'checkpoint'))
            sim.fault('crash-restore')
            continue
        if op == 'other':
            # another reconciler in the same process
            with sim.quiet():
                so = Setup(sim, 'another ')
                fo, go, ro, _ = training(sim, so, 'rows of another')
                mo = fit(so.build(), fo, go)
            sim.describe('another reconciler is fitted')
            check_errors(sim, mo, ro)
            continue
        x, rows = stretch(sim, su, seen, asked)
        what = sim.pick(QUESTIONS, 'question')
        sim.describe('ask {} {}'.format(*what))
        if op == 'failing':
            with seams.line_raiser(1 + sim.choose(60, 'line'), sim.pick([MemoryError, KeyboardInterrupt, ValueError], 'class')):
                e = failing(lambda: ask(m, what, rows.copy()))
            probe(sim, 'calls that failed', int(e is not None))
        if op == 'kpis':
            kpis(sim, su, ref, m, seen, f, g)
            continue
        np.random.seed(sim.subseed('sampling') % 2 ** 32)
        sim.ops += 1
        if op == 'remote':
            sim.fault('restart-other-process')
            got, b = child.other().call('sim.props.c16:remote', pickle.dumps(m), what, rows.copy(), sim.subseed('sampling') % 2 ** 32)
            m = pickle.loads(b)
        else:
            got = ask(m, what, rows.copy())
        check_answer(sim, su, ref, what, got, x)
    check_errors(sim, m, ref)


def kpis(sim, su, ref, m, seen, f, g):
    """the scores are those of each series against its own targets, level by level"""
    from pyforecaster.metrics import rmse, reliability, crps
    x, y = seen
    root = max(su.h, key=lambda k: len(leaves(su.h, k)))
    level = depth(su.h, root)
    which = sim.pick(['rmse', 'reliability', 'crps'], 'score')
    sim.describe('score ' + which)
    np.random.seed(sim.subseed('sampling') % 2 ** 32)
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        if which == 'rmse':
            hat = m.predict(f.copy())
            got = m.compute_kpis(hat, f.copy(), g.copy(), rmse)
        else:
            hat = m.predict_quantiles(f.copy())
            got = m.compute_kpis(hat, f.copy(), g.copy(), {'reliability': reliability, 'crps': crps}[which], alphas=su.q)
    sim.ops += 1
    tr = ref.y
    hat = hat.loc[tr.index]
    require(sim, 'labels', sorted(got.index) == sorted(set(level.values())), 'levels {}'.format(list(got.index)))
    for l in su.labels:
        for d in sorted(set(level.values())):
            ks = [k for k in su.names if level[k] == d]
            what = '{} of level {} at {}'.format(which, d, l)
            if which == 'rmse':
                want = np.mean([np.sqrt(np.mean((hat[(k, l)] - tr[(k, l)]).values ** 2)) for k in ks])
                same(sim, 'score-differs', np.asarray(got.loc[d][l], float), np.asarray(want), what, rtol=1e-6, atol=1e-9)
                continue
            q, t = np.stack([hat[k][l][list(su.q)].values for k in ks]), np.stack([tr[(k, l)].values for k in ks])
            e = q - t[:, :, None]
            if which == 'crps':
                want = np.mean(((e > 0) - su.q) * e)
                same(sim, 'score-differs', np.asarray(got.loc[d][l], float).mean(), np.asarray(want), what, rtol=1e-6, atol=1e-9)
            else:
                v = np.asarray(got.loc[d][l], float)
                # quantiles that meet the target exactly may count either way
                lo, hi = np.mean(e > 1e-9, axis=(0, 1)), np.mean(e > -1e-9, axis=(0, 1))
                require(sim, 'score-differs', v.shape == lo.shape and (v >= lo - 1e-9).all() and (v <= hi + 1e-9).all(),
                        '{}: {} not between {} and {}'.format(what, v, lo, hi))


def refit(sim):
    """fits on other data before, also failed ones, leave no trace"""
    cores(sim)
    su = Setup(sim)
    m = su.build()
    for k in range(sim.between(1, 2, 'earlier fits')):
        f, g, ref, seen = training(sim, su, 'fit {}'.format(k))
        f, g = f.copy(), g.copy()
        num = f.select_dtypes('number').columns
        f[num] *= 3.0
        g = g * 3.0 + 100.0
        if sim.chance(0.3, 'other labels'):
            g = g.add_prefix('old_')
        if sim.chance(0.5, 'interrupted'):
            line = 1 + sim.choose(sim.pick([160, 1000, 3000], 'how late'), 'line')
            with seams.line_raiser(line, sim.pick([MemoryError, KeyboardInterrupt, ValueError], 'class')):
                e = failing(lambda: fit(m, f, g))
            probe(sim, 'fits that failed', int(e is not None))
            sim.describe('fit {}: {}'.format(k, 'done' if e is None else type(e).__name__))
        else:
            fit(m, f, g)
        sim.ops += 1
    f, g, ref, seen = training(sim, su, 'the last fit')
    fit(m, f, g)
    sim.ops += 1
    check_errors(sim, m, ref)
    for _ in range(2):
        x, rows = stretch(sim, su, seen)
        what = sim.pick(QUESTIONS, 'question')
        np.random.seed(sim.subseed('sampling') % 2 ** 32)
        check_answer(sim, su, ref, what, ask(m, what, rows.copy()), x)


def threads(sim):
    """several threads ask one reconciler, and fit others beside it"""
    cores(sim)
    su = Setup(sim)
    f, g, ref, seen = training(sim, su)
    m = fit(su.build(), f.copy(), g.copy())
    jobs = []
    for _ in range(sim.between(2, 3, 'threads')):
        if sim.chance(0.3, 'fits another'):
            so = Setup(sim, 'another ') if sim.chance(0.5, 'of another kind') else copy.copy(su)
            fo, go, ro, seen_o = training(sim, so, 'rows of another')
            x, rows = stretch(sim, so, seen_o)
            jobs.append((so, ro, ('predict', 'reconciled'), x,
                         lambda so=so, fo=fo, go=go, rows=rows: ask(fit(so.build(), fo, go), ('predict', 'reconciled'), rows)))
        else:
            x, rows = stretch(sim, su, seen)
            what = sim.pick(QUESTIONS, 'question')
            jobs.append((su, ref, what, x, lambda what=what, rows=rows: ask(m, what, rows)))
    got = seams.concurrently([j[4] for j in jobs], mean_quantum=mean_quantum(sim), opcodes=sim.chance(0.03, 'bytecode'))
    for (s, r, what, x, _), (v, e) in zip(jobs, got):
        sim.ops += 1
        if e is not None:
            raise Violation('concurrent-call-failed', '{} {}: {!r}'.format(what[0], what[1], e))
        check_answer(sim, s, r, what, v, x)
    check_errors(sim, m, ref)


SCENARIOS = [('histories', histories, 5), ('refit', refit, 3), ('threads', threads, 3)]
