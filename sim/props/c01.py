"""C01: parallel split/apply/combine equals one in-order pass."""
import numpy as np
import pandas as pd

from ..gen import cores, same, require, rng, attempt, probe
from ..core import Discard
from .. import seams

PROP = 'C01'


# ---- chunk-wise functions: row-wise ones commute with axis-0 splits, column-wise ones with axis-1 splits
def el_affine(x):
    return x * 2.0 + 1.0


def el_abs(x):
    return abs(x)


def row_cumsum(x):
    return x.cumsum(axis=1)


def row_center(x):
    return ((x.T - x.T.mean(axis=0)) / 3.0).T


def col_cumsum(x):
    return x.cumsum(axis=0)


def col_center(x):
    return x - x.mean(axis=0)


def col_rank_df(x):           # works on frames only
    return x.rank(axis=0)


def row_scale_df(x):          # works on frames only
    return x.mul(0.5).add(x.sum(axis=1), axis=0)


def row_two(x):               # a tuple of frames
    return x * 1.0, x.iloc[:, [0]] * 3.0


def col_two(x):
    return x * 1.0, x.iloc[[0], :] * 3.0


def row_stack_np(x):          # numpy output with another width
    v = np.asarray(x)
    return np.hstack([v, v[:, :1]])


def el_square_np(x):          # numpy output, same shape
    return np.asarray(x) ** 2


ROWWISE = [el_affine, row_cumsum, row_center, el_abs, row_scale_df, row_two, row_stack_np, el_square_np]
COLWISE = [el_affine, col_cumsum, col_center, el_abs, col_rank_df, col_two, el_square_np]


def labels(sim, n, what, r):
    kind = sim.pick(['int', 'sorted-str', 'shuffled-str', 'shuffled-int', 'dup', 'time', 'tz', 'tuple'], what + '-labels')
    if kind == 'int':
        return pd.RangeIndex(n)
    if kind == 'sorted-str':
        return pd.Index(['c{:03d}'.format(i) for i in range(n)])
    if kind == 'shuffled-str':
        return pd.Index(['c{}'.format(i) for i in r.permutation(n)])
    if kind == 'shuffled-int':
        return pd.Index(r.permutation(n) * 7 - 3)
    if kind == 'dup':
        return pd.Index(['k{}'.format(i) for i in r.integers(0, max(n // 2, 1), n)])
    if kind == 'time':
        return pd.date_range('2021-03-27', periods=n, freq='1h')
    if kind == 'tz':
        return pd.date_range('2021-03-27', periods=n, freq='1h', tz='Europe/Zurich')
    return pd.MultiIndex.from_tuples([('g{}'.format(i % 3), i) for i in r.permutation(n)])


def number_frame(sim, r, n, m, gaps=True):
    kind = sim.pick(['float', 'int', 'mixed', 'f32', 'nan'][:None if gaps else 4], 'dtypes')
    cols = {}
    for j in range(m):
        v = r.standard_normal(n) * 10.0 ** int(r.integers(-2, 4))
        if kind == 'int' or (kind == 'mixed' and j % 2):
            v = np.round(v * 3).astype([np.int64, np.int32][j % 2]) if n else v.astype(int)
        elif kind == 'f32':
            v = v.astype(np.float32)
        elif kind == 'nan' and n:
            v[r.integers(0, n)] = np.nan
        cols[j] = v
    return pd.DataFrame(cols), kind


def in_order(f, df, axis):
    if isinstance(df, pd.DataFrame):
        return f(df)
    parts = [f(d) for d in df]
    return combine(parts, axis)


def combine(parts, axis):
    if isinstance(parts[0], tuple):
        return tuple(pd.concat([p[i] for p in parts], axis=axis) for i in range(len(parts[0])))
    if isinstance(parts[0], pd.DataFrame):
        return pd.concat(parts, axis=axis)
    return np.vstack(parts) if axis == 0 else np.hstack(parts)


def as_values(z):
    return np.asarray(z, dtype=float)


def judge(sim, got, want, f, axis, shape, index, columns, labelled, rtol=1e-12, atol=1e-12):
    """every row and column once, in order, under its label, with the in-order values"""
    if isinstance(want, tuple):
        require(sim, 'wrong-shape', isinstance(got, tuple) and len(got) == len(want), 'expected a tuple of {}'.format(len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            same(sim, 'wrong-result', g, w, 'output {}'.format(i), rtol=rtol, atol=atol)
        return
    require(sim, 'wrong-shape', np.shape(got) == np.shape(want), 'shape {} instead of {}'.format(np.shape(got), np.shape(want)))
    same(sim, 'wrong-values', as_values(got), as_values(want), f.__name__, rtol=rtol, atol=atol)
    if isinstance(got, pd.DataFrame) and np.shape(want) == shape:
        same(sim, 'wrong-labels', got.index, index, 'index')
        same(sim, 'wrong-labels', got.columns, columns, 'columns')
    elif labelled:
        require(sim, 'labels-lost', False, 'a labelled frame was expected, got {}'.format(type(got).__name__))


def combine_frame(sim):
    from pyforecaster.big_data_utils import fdf_parallel
    cores(sim)
    r = rng(sim)
    n, m = sim.between(1, 14, 'rows'), sim.between(1, 12, 'cols')
    axis = sim.choose(2, 'axis')
    use_ray = sim.chance(0.5, 'ray')
    f = sim.pick(ROWWISE if axis == 0 else COLWISE, 'function')
    n_splits = sim.pick([None, 1, 2, 3, 4, 5, 7, 11, 13], 'n_splits')
    if sim.chance(0.3, 'wide'):
        # sizes which the splits do not divide evenly
        m = sim.between(13, 130, 'many cols')
        n = sim.between(1, 130, 'many rows') if axis == 0 else n
        n_splits = sim.between(2, min(m, 48), 'many splits')
    recast = not sim.chance(0.25, 'per-chunk')
    # frames skip missing values, arrays do not: with gaps only functions for which both agree
    df, kind = number_frame(sim, r, n, m, use_ray or f in (el_affine, el_abs, el_square_np))
    df.index, df.columns = labels(sim, n, 'row', r), labels(sim, m, 'column', r)
    if df.index.has_duplicates and axis == 0 and f in (row_scale_df,):
        df.index = pd.RangeIndex(n)
    own = use_ray and sim.chance(0.3, 'ray session open')
    if own:
        import ray
        ray.init()
    sim.describe('fdf_parallel({}, {}x{} {}, n_splits={}, axis={}, use_ray={}, recast={}, session open={})'.format(
        f.__name__, n, m, kind, n_splits, axis, use_ray, recast, own))
    if use_ray and sim.chance(0.15, 'worker restarts'):
        sim.armed = [seams.Fault('worker-death', sim.choose(5, 'death-task'), times=sim.between(1, 3, 'deaths'))]
    got = fdf_parallel(f, df.copy(), n_splits=n_splits, axis=axis, use_ray=use_ray, recast=recast)
    sim.armed = []
    sim.ops += 1
    want = in_order(f, df, axis)
    eps = 1e-5 if kind == 'f32' else 1e-13
    rtol, atol = 10 * eps, 10 * eps * max(1., float(np.nanmax(df.abs().values))) * (n + m)
    if recast:
        judge(sim, got, want, f, axis, df.shape, df.index, df.columns,
              isinstance(want, pd.DataFrame) or f is el_square_np and not use_ray, rtol, atol)
    else:
        require(sim, 'wrong-shape', isinstance(got, list), 'per-chunk results should be a list, got {}'.format(type(got).__name__))
        same(sim, 'wrong-chunk-order', vals(combine(got, axis)), vals(want), f.__name__, rtol=rtol, atol=atol)


def vals(z):
    return [as_values(x) for x in z] if isinstance(z, tuple) else as_values(z)


def combine_list(sim):
    from pyforecaster.big_data_utils import fdf_parallel
    cores(sim)
    r = rng(sim)
    axis = sim.choose(2, 'axis')
    use_ray = sim.chance(0.5, 'ray')
    f = sim.pick(ROWWISE if axis == 0 else COLWISE, 'function')
    k = sim.between(1, 9, 'frames')
    n, m = sim.between(1, 8, 'rows'), sim.between(1, 6, 'cols')
    dfs = []
    lab_r, lab_c = labels(sim, n, 'row', r), labels(sim, m, 'column', r)
    if lab_r.has_duplicates and f is row_scale_df:
        lab_r = pd.RangeIndex(n)
    for i in range(k):
        rows = n if axis == 1 else max(1, int(r.integers(1, n + 1)))
        cols = m if axis == 0 else max(1, int(r.integers(1, m + 1)))
        d = pd.DataFrame(r.standard_normal((rows, cols)) + 100 * i)
        d.index = lab_r[:rows]
        d.columns = lab_c[:cols]
        if axis == 1 and not isinstance(d.columns, (pd.MultiIndex, pd.DatetimeIndex)):
            d.columns = ['{}_{}'.format(c, i) for c in d.columns]
        dfs.append(d)
    recast = not sim.chance(0.25, 'per-chunk')
    n_splits = sim.pick([None, 1, 3, 20], 'n_splits')
    sim.describe('fdf_parallel({}, {} frames, n_splits={}, axis={}, use_ray={}, recast={})'.format(
        f.__name__, k, n_splits, axis, use_ray, recast))
    got = fdf_parallel(f, [d.copy() for d in dfs], n_splits=n_splits, axis=axis, use_ray=use_ray, recast=recast)
    sim.ops += 1
    want = in_order(f, dfs, axis)
    if recast:
        whole = pd.concat(dfs, axis=axis)
        judge(sim, got, want, f, axis, whole.shape, whole.index, whole.columns,
              isinstance(want, pd.DataFrame) or f is el_square_np and not use_ray)
    else:
        require(sim, 'wrong-shape', isinstance(got, list) and len(got) == k, 'expected one result per frame')
        for i in range(k):
            same(sim, 'wrong-chunk-order', vals(got[i]), vals(f(dfs[i])), 'chunk {}'.format(i), rtol=1e-12, atol=1e-12)


def memory(sim):
    from pyforecaster.big_data_utils import reduce_mem_usage
    cores(sim)
    r = rng(sim)
    n, m = sim.between(1, 12, 'rows'), sim.between(1, 14, 'cols')
    use_ray = sim.chance(0.5, 'ray')
    mix = sim.pick(['float', 'int', 'mixed'], 'dtypes')
    big = sim.chance(0.3, 'big values')
    cols = {}
    for j in range(m):
        if mix == 'int' or (mix == 'mixed' and r.random() < 0.5):
            v = r.integers(-1, 2, n) * 10 ** int(r.integers(0, 7)) + r.integers(0, 100, n)
            if r.random() < 0.5:
                # values around the limits of the integer types
                edge = 2 ** int(r.choice([7, 8, 15, 16, 31, 32, 40]))
                v[int(r.integers(0, n))] = int(r.choice([-1, 1])) * (edge + int(r.integers(-2, 3)) if r.random() < 0.7
                                                                    else int(edge * r.uniform(1, 2)))
        else:
            v = r.standard_normal(n) * 10.0 ** int(r.integers(-3, 6))
            if big and r.random() < 0.4:
                v = v * 1e40
            if r.random() < 0.2:
                v[int(r.integers(0, n))] = np.nan
        cols[j] = v
    df = pd.DataFrame(cols)
    df.index, df.columns = labels(sim, n, 'row', r), labels(sim, m, 'column', r)
    if df.columns.has_duplicates:
        df.columns = pd.RangeIndex(m)
    sim.describe('reduce_mem_usage({}x{} {}, use_ray={})'.format(n, m, mix, use_ray))
    got = reduce_mem_usage(df.copy(), parallel=True, use_ray=use_ray)
    sim.ops += 1
    with sim.quiet():
        want = reduce_mem_usage(df.copy(), parallel=False)
    require(sim, 'wrong-shape', isinstance(got, pd.DataFrame), 'got {}'.format(type(got).__name__))
    same(sim, 'wrong-result', got, want, 'against the in-order pass', rtol=3e-7)
    same(sim, 'wrong-result', got, df, 'against the original values', rtol=3e-7)
    if use_ray or mix == 'float' and not big and not df.isna().values.any():
        same(sim, 'wrong-dtype', [str(x) for x in got.dtypes], [str(x) for x in want.dtypes], 'dtypes')


def f_mix(p, a=0, b=1):
    return p * 10 + a, b


def map_in_order(sim):
    from pyforecaster.big_data_utils import mapper
    cores(sim)
    n = sim.between(1, 20, 'parameters')
    a, b = sim.choose(5, 'a'), sim.choose(5, 'b')
    sim.describe('mapper over {} parameters'.format(n))
    got = mapper(f_mix, list(range(n)), a, b=b)
    sim.ops += 1
    same(sim, 'wrong-order', [tuple(x) for x in got], [f_mix(p, a, b) for p in range(n)], 'mapper')


SCENARIOS = [('combine_frame', combine_frame, 5), ('combine_list', combine_list, 3), ('memory', memory, 3),
             ('map_in_order', map_in_order, 1)]
