"""Random formatter configurations (plain data, so that they can be rebuilt anywhere) and signals to transform."""
import numpy as np
import pandas as pd

FREQS = ['1h', '20min', '15min', '30min']
STEP = {'1h': 60, '20min': 20, '15min': 15, '30min': 30, '6h': 360, '1D': 1440}


def sumsq(x):
    return np.sum(x ** 2) - 1


def span(x):
    return np.max(x) - np.min(x)


FUNS = [['mean'], ['mean', 'max'], ['min', 'std'], ['max'], [sumsq], ['mean', span], ['median', 'min', 'max']]


def hm(minutes):
    return '{}min'.format(minutes)


def draw_transformer(sim, cols, dt, causal=True, bins=True, k=0):
    n = sim.between(1, min(2, len(cols)), 'n-names')
    start = sim.choose(len(cols), 'name')
    names = [cols[(start + i) % len(cols)] for i in range(n)]
    kind = sim.pick(['lags', 'rolling', 'rolling-lags', 'int-freq', 'bins', 'bins-flat', 'rolling-relative'][:None if bins else 4],
                    'transform')
    t = dict(names=names, functions=None, agg_freq=None, lags=None, relative_lags=False, agg_bins=None, nested=True)
    past = sim.pick([[1], [0, 1, 2], [1, 3], [2, 5, 9], [0, 4]], 'lags')
    lags = past if causal else [-v for v in past] if sim.chance(0.5, 'future') else past + [-1, -2]
    steps = sim.pick([2, 3, 4, 6], 'agg-steps')
    if kind == 'lags':
        t['lags'] = lags
        if sim.chance(0.3, 'relative'):
            t.update(relative_lags=True, agg_freq=hm(steps * STEP[dt]))
    elif kind == 'rolling':
        t.update(functions=sim.pick(FUNS, 'functions'), agg_freq=hm(steps * STEP[dt]))
    elif kind == 'rolling-lags':
        t.update(functions=sim.pick(FUNS, 'functions'), agg_freq=hm(steps * STEP[dt]), lags=lags)
    elif kind == 'rolling-relative':
        t.update(functions=sim.pick(FUNS, 'functions'), agg_freq=hm(steps * STEP[dt]), lags=lags, relative_lags=True)
    elif kind == 'int-freq':
        t.update(functions=sim.pick(FUNS, 'functions'), agg_freq=steps, lags=lags)
    else:
        f = sim.pick([['mean'], ['mean', 'max'], ['min', 'max', 'mean']], 'functions')
        t.update(functions=f, agg_bins=sim.pick([[0, 1, 4], [0, 2, 5], [1, 3, 6], [0, 4, 8, 10], [6, 3, 0]], 'bins'),
                 nested=kind == 'bins')
        if not causal and sim.chance(0.5, 'future'):
            t['agg_bins'] = [-v - 1 for v in t['agg_bins']]
    return t


def key(t):
    return repr((t['names'], [getattr(f, '__name__', f) for f in t['functions'] or []], t['agg_freq'], t['agg_bins'], t['nested']))


def columns_of(t, dt):
    """generated column names, good enough to avoid collisions"""
    out = set()
    for n in t['names']:
        fs = [getattr(f, '__name__', f) for f in t['functions']] if t['functions'] else ['']
        if t['agg_bins']:
            b = sorted(t['agg_bins'], reverse=True)
            mid = ['{}-{}'.format(b[i], b[i + 1]) for i in range(len(b) - 1)]
        else:
            fr = t['agg_freq']
            m = fr * STEP[dt] if isinstance(fr, int) else int(fr[:-3]) if fr else STEP[dt]
            mid = [str(m) if t['functions'] else '']
        for f in fs:
            for m in mid:
                for l in t['lags'] if t['lags'] is not None else ['']:
                    out.add((n, f, m, l))
    return out


def draw_spec(sim, cols, dt, max_tr=4, targets=True, normalizers=True, causal=True, target_col=None):
    spec = dict(dt=dt, transformers=[], targets=[], normalizers=[], augment=not sim.chance(0.3, 'no-augment'),
                timezone=None)
    used = set()
    for k in range(sim.between(1, max_tr, 'n-transformers')):
        t = draw_transformer(sim, cols, dt, causal=causal or not sim.chance(0.3, 'anticipative'), k=k)
        c = columns_of(t, dt)
        if c & used:
            continue
        used |= c
        spec['transformers'].append(t)
    if not spec['transformers']:
        spec['transformers'].append(dict(names=[cols[0]], functions=None, agg_freq=None, lags=[7, 11], relative_lags=False,
                                         agg_bins=None, nested=True))
    if targets:
        tc = target_col or cols[sim.choose(len(cols), 'target')]
        h = sim.between(1, 4, 'horizon')
        t = dict(names=[tc], functions=None, agg_freq=None, lags=[-i for i in range(1, h + 1)], relative_lags=False, agg_bins=None)
        if sim.chance(0.25, 'aggregated target'):
            t.update(functions=['mean'], agg_freq=hm(2 * STEP[dt]))
        spec['targets'].append(t)
        if normalizers and sim.chance(0.3, 'normalizers'):
            fr = hm(sim.pick([3, 5, 8], 'norm-steps') * STEP[dt])
            spec['normalizers'] = [dict(target=tc, function='mean', agg_freq=fr, name='mn'),
                                   dict(target=tc, function='std', agg_freq=fr, name='sd')]
            if sim.chance(0.3, 'lagged normalizer'):
                spec['normalizers'] = [dict(target=tc, function='mean', agg_freq=fr, lags=np.array([2]), name='mn')]
            two = len(spec['normalizers']) == 2
            spec['norm'] = ('(df[t] - df["mn"]) / (df["sd"] + 1)', 'df[t] * (df["sd"] + 1) + df["mn"]') if two \
                else ('df[t] - df["mn"]', 'df[t] + df["mn"]')
    return spec


def build(spec, n_parallel=None, with_dt=False):
    from pyforecaster.formatter import Formatter
    f = Formatter(augment=spec['augment'], n_parallel=n_parallel, dt=pd.Timedelta(spec['dt']) if with_dt else None)
    for t in spec['transformers']:
        kw = {k: (list(v) if isinstance(v, list) else v) for k, v in t.items() if k not in ('names', 'nested')}
        f.add_transform(list(t['names']), nested=t['nested'], **kw)
    for t in spec['targets']:
        kw = {k: (list(v) if isinstance(v, list) else v) for k, v in t.items() if k != 'names'}
        f.add_target_transform(list(t['names']), **kw)
    for n in spec['normalizers']:
        f.add_target_normalizer(**n)
    if spec.get('norm'):
        f.add_normalizing_fun(*spec['norm'])
    return f


def describe(spec):
    def one(t):
        return '{}[{}{}{}{}{}]'.format('+'.join(map(str, t['names'])),
                                       ','.join(getattr(f, '__name__', f) for f in t['functions'] or ['lag']),
                                       ' freq=' + str(t['agg_freq']) if t['agg_freq'] else '',
                                       ' lags={}'.format(t['lags']) if t['lags'] is not None else '',
                                       ' relative' if t['relative_lags'] else '',
                                       ' bins={}{}'.format(t['agg_bins'], '' if t.get('nested', True) else ' flat') if t['agg_bins'] else '')
    return 'dt={} augment={} transforms: {}; targets: {}; normalizers: {}'.format(
        spec['dt'], spec['augment'], ' '.join(one(t) for t in spec['transformers']), ' '.join(one(t) for t in spec['targets']),
        [(n['function'], n['agg_freq'], n.get('lags')) for n in spec['normalizers']])


def metadata(f, targets=True):
    """everything the formatter knows about its features"""
    out = []
    for t in f.transformers + (f.target_transformers if targets else []):
        m = t.metadata
        out.append(m if m is None else m.astype(object).where(m.notna(), None))
    return out


def signals(r, n, cols, dt, start='2021-03-01', tz=None, ints=False):
    idx = pd.date_range(start, periods=n, freq=dt, tz=tz)
    t = np.arange(n)
    d = {}
    for k, c in enumerate(cols):
        v = 5 * np.sin(2 * np.pi * t / (24 + k) + r.uniform(0, 6)) + r.standard_normal(n) + 10 * (k + 1)
        d[c] = np.round(v * 10).astype(int) if ints and k % 2 else v
    return pd.DataFrame(d, index=idx)


# ---- run in the second process
def remote_transform(blob, x, kw):
    import pickle
    f = pickle.loads(blob)
    y, _ = f.transform(x, **kw)
    return y, pickle.dumps(f), f.get_time_lims()


def remote_build_transform(spec, x, kw, with_dt):
    f = build(spec, with_dt=with_dt)
    return f.transform(x, **kw)
