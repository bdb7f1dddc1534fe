"""Selecting channels by indexing."""
import numpy as np

from .. import algebra, gen, oracle
from ..core import Skip, Violation, Workload

ID = 'C08'
RULE = ('distinct (model, index expression) pairs whose selection was '
        'compared entry by entry, or which were refused')

BAD = (IndexError, ValueError, TypeError)


def index(rng, n):
    """A valid index along an axis of length n."""
    f = gen.pick(rng, ('int', 'neg', 'slice', 'slice', 'all', 'list', 'perm',
                       'rev', 'step', 'array', 'npint', 'one', 'mask',
                       'repeat'))
    if f == 'int':
        return int(rng.integers(n))
    if f == 'neg':
        return -int(rng.integers(1, n+1))
    if f == 'npint':
        return np.int64(rng.integers(n))
    if f == 'slice':
        lo = int(rng.integers(n))
        hi = int(rng.integers(lo+1, n+3))
        return gen.pick(rng, (slice(lo, hi), slice(lo, None),
                              slice(None, min(hi, n)), slice(lo-n, None)))
    if f == 'all':
        return slice(None)
    if f == 'rev':
        return slice(None, None, -1)
    if f == 'step':
        return slice(int(rng.integers(n)), None, 2)
    if f == 'one':
        return [int(rng.integers(-n, n))]
    if f == 'mask':
        x = rng.random(n) < .6
        x[int(rng.integers(n))] = True
        return x
    k = int(rng.integers(1, n+1))
    x = rng.permutation(n)[:k]
    if f == 'perm':
        x = rng.permutation(n)
    if f == 'repeat':
        x = rng.integers(0, n, int(rng.integers(1, n+2)))
    if f == 'array':
        return x
    return [int(v) if rng.random() < .7 else int(v)-n for v in x]


def raw_model(rng, kind=None):
    kind = kind or gen.pick(rng, ('ss', 'ss', 'tf', 'ssgain', 'tfgain'))
    dt = gen.some_dt(rng)
    shp = gen.shape(rng, 4)
    return kind, algebra.operand(rng, dt, shp, kind)


def select(rng, mon):
    kind, x = raw_model(rng)
    G = mon.result('build', x.build, rng)
    p, m = x.shape
    r = index(rng, p)
    if rng.random() < .15:
        expr, c = r, slice(None)
    else:
        c = index(rng, m)
        expr = (r, c)
    rows = np.atleast_1d(np.arange(p)[r])
    cols = np.atleast_1d(np.arange(m)[c])
    pts = oracle.points(rng, x.poles(), 4, x.dt)
    want = x.at(pts)[:, rows][:, :, cols]
    key = f'select:{kind}:{"siso" if x.shape == (1, 1) else "mimo"}'
    S = mon.result('getitem', lambda: G[expr])
    mon.check(type(S) is type(G), key + ':kind', type(S).__name__)
    algebra.judge(mon, key, S, (len(rows), len(cols)), x.dt, want, pts,
                  np.max(np.abs(x.at(pts))), rtol=1e-9, x=x.raw(),
                  expr=repr(expr))
    mon.nontrivial(x.raw(), repr(expr),
                   bucket=(kind, x.shape, type(r).__name__,
                           type(c).__name__),
                   sample={'kind': kind, 'shape': x.shape,
                           'index': repr(expr)})


def refuse(rng, mon):
    kind, x = raw_model(rng)
    G = mon.result('build', x.build, rng)
    p, m = x.shape
    u = rng.random()
    before = repr([np.asarray(v).tolist() for v in _data(G)])
    if u < .3:
        bad = gen.pick(rng, (
            (p, 0), (0, m), (-p-1, 0), (0, -m-1), ([0, p], slice(None)),
            (slice(None), [0, m]), p, (p+5, m+5), ('a', 0), (0, 1.5),
            (0, 0, 0), (None, 'x')))
        mon.rejected('getitem', lambda i: G[i], bad, exc=BAD,
                     key=f'refuse:{kind}')
        mon.nontrivial('r', x.raw(), repr(bad), bucket=('r', kind, repr(bad)))
    elif u < .6:
        # nothing selected: an error or nothing, never a channel
        bad = gen.pick(rng, ((slice(p, None), slice(None)),
                             (slice(None), slice(m, m+3)),
                             ([], slice(None)), (0, slice(0, 0)),
                             (slice(p, p+2), slice(m, None))))
        mon.evals['empty'] += 1
        try:
            S = mon.call('getitem', lambda: G[bad])
        except BAD:
            S = None
        if S is not None and 0 not in S.shape:
            raise Violation(f'empty:{kind}', f'{bad} returned a model of '
                            f'shape {S.shape}', {'x': repr(x.raw())})
        mon.nontrivial('e', x.raw(), repr(bad), bucket=('e', kind, repr(bad)))
    else:
        k = (int(rng.integers(p)), int(rng.integers(m)))

        def put():
            G[k] = gen.pick(rng, (1., G, None))
        mon.rejected('setitem', put, exc=BAD, key=f'setitem:{kind}')
        mon.nontrivial('s', x.raw(), k, bucket=('s', kind, k))
    mon.check(before == repr([np.asarray(v).tolist() for v in _data(G)]),
              f'refuse:{kind}:changed', 'the model changed')


def _data(G):
    if type(G).__name__ == 'State':
        return G.matrices
    n, d = oracle.parts(G)
    return [v for r in list(n) + list(d) for v in r]


def nested(rng, mon):
    """Selections of selections and selections inside expressions."""
    kind, x = raw_model(rng)
    G = mon.result('build', x.build, rng)
    pts = oracle.points(rng, x.poles(), 4, x.dt)
    val = x.at(pts)
    S = G
    done = []
    for _ in range(int(rng.integers(2, 5))):
        p, m = val.shape[1:]
        r, c = index(rng, p), index(rng, m)
        S = mon.result('getitem', lambda: S[r, c])
        val = val[:, np.atleast_1d(np.arange(p)[r])]
        val = val[:, :, np.atleast_1d(np.arange(m)[c])]
        done.append(repr((r, c)))
    algebra.judge(mon, f'nested:{kind}', S, val.shape[1:], x.dt, val, pts,
                  np.max(np.abs(x.at(pts))), rtol=1e-9, x=x.raw(), expr=done)
    mon.nontrivial('n', x.raw(), done, bucket=('n', kind, len(done)))


WORKLOADS = [Workload('select', select, 20000),
             Workload('refuse', refuse, 8000),
             Workload('nested', nested, 5000)]
