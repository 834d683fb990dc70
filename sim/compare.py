"""Structural comparison of anything the library returns.  diff(a, b) -> None when equal, else a short description."""
import numpy as np
import pandas as pd


def _num(a, b, rtol, atol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape {} != {}'.format(a.shape, b.shape)
    if a.dtype.kind in 'OUSMmb' or b.dtype.kind in 'OUSMmb':
        try:
            af, bf = a.astype(float), b.astype(float)
        except (TypeError, ValueError):
            af = None
        if af is None or a.dtype.kind in 'Mm':
            eq = (a == b) | (pd.isna(a) & pd.isna(b))
            if not np.all(eq):
                i = tuple(int(z) for z in np.argwhere(~np.asarray(eq, dtype=bool))[0]) if np.ndim(eq) else ()
                return 'value at {}: {!r} != {!r}'.format(i, a[i] if i else a, b[i] if i else b)
            return None
        a, b = af, bf
    with np.errstate(all='ignore'):
        ok = (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))
    if not np.all(ok):
        bad = np.argwhere(~ok)
        i = tuple(int(z) for z in bad[0])
        return '{} of {} values differ, first at {}: {!r} != {!r}'.format(len(bad), ok.size, i, a[i].item(), b[i].item())
    return None


def diff(a, b, rtol=0.0, atol=0.0, dtypes=False, path=''):
    if a is b:
        return None
    where = (path + ': ') if path else ''
    if isinstance(a, (pd.DataFrame, pd.Series)) or isinstance(b, (pd.DataFrame, pd.Series)):
        if type(a) is not type(b):
            return where + 'type {} != {}'.format(type(a).__name__, type(b).__name__)
        if a.shape != b.shape:
            return where + 'shape {} != {}'.format(a.shape, b.shape)
        r = _idx(a.index, b.index)
        if r:
            return where + 'index ' + r
        if isinstance(a, pd.Series):
            if dtypes and a.dtype != b.dtype:
                return where + 'dtype {} != {}'.format(a.dtype, b.dtype)
            r = _num(a.to_numpy(), b.to_numpy(), rtol, atol)
            return where + r if r else None
        r = _idx(a.columns, b.columns)
        if r:
            return where + 'columns ' + r
        if dtypes and list(a.dtypes) != list(b.dtypes):
            for c, x, y in zip(a.columns, a.dtypes, b.dtypes):
                if x != y:
                    return where + 'dtype of {!r}: {} != {}'.format(c, x, y)
        for k in range(a.shape[1]):
            x, y = a.iloc[:, k], b.iloc[:, k]
            r = _num(x.to_numpy(), y.to_numpy(), rtol, atol)
            if r:
                return where + 'column {!r} (position {}): {}'.format(a.columns[k], k, r)
        return None
    if isinstance(a, pd.Index) or isinstance(b, pd.Index):
        if not (isinstance(a, pd.Index) and isinstance(b, pd.Index)):
            return where + 'type {} != {}'.format(type(a).__name__, type(b).__name__)
        r = _idx(a, b)
        return where + r if r else None
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return where + 'type {} != {}'.format(type(a).__name__, type(b).__name__)
        if list(a) != list(b) and set(map(repr, a)) != set(map(repr, b)):
            return where + 'keys {} != {}'.format(list(a)[:8], list(b)[:8])
        for k in a:
            r = diff(a[k], b.get(k), rtol, atol, dtypes, '{}[{!r}]'.format(path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            if not (isinstance(a, np.ndarray) or isinstance(b, np.ndarray)):
                return where + 'type {} != {}'.format(type(a).__name__, type(b).__name__)
        if type(a) is type(b) or (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            if len(a) != len(b):
                return where + 'length {} != {}'.format(len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                r = diff(x, y, rtol, atol, dtypes, '{}[{}]'.format(path, i))
                if r:
                    return r
            return None
    if hasattr(a, 'nodes') and hasattr(b, 'nodes'):
        return tree_diff(a, b, rtol, atol, where)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        try:
            same = bool(a == b)
        except Exception:
            same = False
        return None if same else where + '{!r} != {!r}'.format(_short(a), _short(b))
    try:
        aa, bb = np.asarray(a), np.asarray(b)
    except Exception as e:   # noqa
        return where + 'not comparable: {!r}'.format(e)
    if aa.dtype == object and bb.dtype == object and aa.shape == () and bb.shape == ():
        try:
            same = bool(a == b)
        except Exception:
            same = False
        return None if same else where + '{} != {}'.format(_short(a), _short(b))
    if dtypes and aa.dtype != bb.dtype:
        return where + 'dtype {} != {}'.format(aa.dtype, bb.dtype)
    r = _num(aa, bb, rtol, atol)
    return where + r if r else None


def _short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + '...'


def _idx(a, b):
    if len(a) != len(b):
        return 'length {} != {}'.format(len(a), len(b))
    la, lb = a.tolist(), b.tolist()
    if [repr(x) for x in la] != [repr(x) for x in lb]:
        for i, (x, y) in enumerate(zip(la, lb)):
            if repr(x) != repr(y):
                try:
                    if float(x) == float(y):
                        continue
                except (TypeError, ValueError):
                    pass
                return 'label {}: {!r} != {!r}'.format(i, x, y)
    return None


def tree_diff(a, b, rtol=0.0, atol=0.0, where=''):
    if list(a.nodes) != list(b.nodes):
        return where + 'tree nodes {} != {}'.format(_short(list(a.nodes)), _short(list(b.nodes)))
    if sorted(a.edges) != sorted(b.edges):
        return where + 'tree edges differ'
    for n in a.nodes:
        x, y = a.nodes[n], b.nodes[n]
        if set(x) != set(y):
            return where + 'attributes of node {}: {} != {}'.format(n, sorted(x), sorted(y))
        for k in x:
            try:
                r = _num(np.ravel(np.asarray(x[k], dtype=float)), np.ravel(np.asarray(y[k], dtype=float)), rtol, atol)
            except (TypeError, ValueError):
                r = None if x[k] == y[k] else '{!r} != {!r}'.format(x[k], y[k])
            if r:
                return where + 'node {} attribute {}: {}'.format(n, k, r)
    return None


def tree_problem(g, tol=1e-6):
    """None when g is a well-formed scenario tree"""
    import networkx as nx
    if not hasattr(g, 'nodes'):
        return 'not a graph: {!r}'.format(type(g))
    if g.number_of_nodes() == 0:
        return 'empty tree'
    roots = [n for n in g.nodes if g.in_degree(n) == 0]
    if len(roots) != 1:
        return '{} roots'.format(len(roots))
    if not nx.is_directed_acyclic_graph(g) or any(g.in_degree(n) > 1 for n in g.nodes):
        return 'not a tree'
    t = {n: g.nodes[n].get('t') for n in g.nodes}
    p = {}
    for n in g.nodes:
        try:
            p[n] = float(np.ravel(np.asarray(g.nodes[n]['p'], dtype=float))[0])
        except Exception as e:   # noqa
            return 'node {} has no usable probability ({!r})'.format(n, e)
        if not np.isfinite(p[n]) or p[n] < -tol:
            return 'node {} has probability {}'.format(n, p[n])
        v = np.ravel(np.asarray(g.nodes[n]['v'], dtype=float))
        if not np.all(np.isfinite(v)):
            return 'node {} has value {}'.format(n, v)
    for k in sorted(set(t.values())):
        s = sum(p[n] for n in g.nodes if t[n] == k)
        if abs(s - 1) > tol:
            return 'probabilities at step {} sum to {}'.format(k, s)
    for n in g.nodes:
        ch = list(g.successors(n))
        if ch:
            if any(t[c] != t[n] + 1 for c in ch):
                return 'children of node {} are not one step later'.format(n)
            s = sum(p[c] for c in ch)
            if abs(s - p[n]) > tol:
                return 'children of node {} have probability {} instead of {}'.format(n, s, p[n])
    return None


def fingerprint(x):
    """a deep copy good enough to notice any later modification of x"""
    import copy
    if isinstance(x, pd.DataFrame):
        return ('df', x.copy(deep=True), [str(d) for d in x.dtypes], x.columns.copy(), x.index.copy(),
                (x.index.names, x.columns.names))
    if isinstance(x, pd.Series):
        return ('s', x.copy(deep=True), str(x.dtype), x.name)
    if isinstance(x, np.ndarray):
        return ('np', x.copy(), str(x.dtype))
    if isinstance(x, dict):
        return ('dict', {k: fingerprint(v) for k, v in x.items()}, list(x))
    if isinstance(x, (list, tuple)):
        return ('seq', type(x).__name__, [fingerprint(v) for v in x])
    return ('other', copy.deepcopy(x))


def changed(x, fp):
    """None if x still matches its fingerprint"""
    tag = fp[0]
    if tag == 'df':
        if not isinstance(x, pd.DataFrame):
            return 'no longer a frame'
        if [str(d) for d in x.dtypes] != fp[2]:
            return 'dtypes {} -> {}'.format(_short(fp[2]), _short([str(d) for d in x.dtypes]))
        if (x.index.names, x.columns.names) != fp[5]:
            return 'axis names changed'
        return diff(x, fp[1])
    if tag == 's':
        if str(x.dtype) != fp[2] or x.name != fp[3]:
            return 'dtype or name changed'
        return diff(x, fp[1])
    if tag == 'np':
        if not isinstance(x, np.ndarray) or str(x.dtype) != fp[2]:
            return 'dtype {} -> {}'.format(fp[2], getattr(x, 'dtype', type(x)))
        return diff(x, fp[1])
    if tag == 'dict':
        if list(x) != fp[2]:
            return 'keys {} -> {}'.format(_short(fp[2]), _short(list(x)))
        for k, f in fp[1].items():
            r = changed(x[k], f)
            if r:
                return '[{!r}]: {}'.format(k, r)
        return None
    if tag == 'seq':
        if type(x).__name__ != fp[1] or len(x) != len(fp[2]):
            return 'sequence length or type changed'
        for i, (v, f) in enumerate(zip(x, fp[2])):
            r = changed(v, f)
            if r:
                return '[{}]: {}'.format(i, r)
        return None
    return diff(x, fp[1])
