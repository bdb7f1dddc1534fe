"""Kalman controllability and observability analysis."""
from fractions import Fraction

import numpy as np
from harold import (State, controllability_indices, controllability_matrix,
                    is_kalman_controllable, is_kalman_observable,
                    kalman_decomposition, observability_matrix)

from .. import gen, oracle
from ..core import Skip, Workload

ID = 'C23'
RULE = ('distinct pairs or models with small integer (or dyadic) data whose '
        'subspaces were computed in exact rational arithmetic and compared '
        'with the answers')
ASSUMPTIONS = ['the data are such that the Kalman matrices are free of '
               'rounding errors and their nonzero singular values are above '
               '1e-8 (1e-5 for the decomposition) of the largest one',
               'the assignment of controllability indices to the inputs is '
               'not unique: any assignment that makes a basis is accepted']


def rank(m):
    """Exact rank of a matrix of floats."""
    m = [[Fraction(float(v)) for v in row] for row in m]
    r = 0
    for j in range(len(m[0]) if m else 0):
        k = next((i for i in range(r, len(m)) if m[i][j]), None)
        if k is None:
            continue
        m[r], m[k] = m[k], m[r]
        for i in range(r+1, len(m)):
            if m[i][j]:
                f = m[i][j]/m[r][j]
                m[i] = [u - f*v for u, v in zip(m[i], m[r])]
        r += 1
        if r == len(m):
            break
    return r


def krylov(a, b):
    out = [b]
    for _ in range(1, len(a)):
        out.append(a @ out[-1])
    return np.hstack(out)


def clear(m, r, tol):
    """No nonzero singular value is close to being zero."""
    s = np.linalg.svd(m, compute_uv=False)
    if r and s[r-1] < tol*s[0]:
        raise Skip('unclear rank')


def ints(rng, p, m, density=.7, hi=3):
    return rng.integers(-hi, hi+1, (p, m)) * 1. * \
        (rng.random((p, m)) < density)


def structure(rng, dt=None):
    """Integer matrices with some parts not connected to inputs/outputs."""
    p, m = gen.shape(rng)
    sizes = [int(gen.pick(rng, (0, 0, 1, 1, 2))) for _ in range(4)]
    if rng.random() < .15:
        sizes = [0, int(rng.integers(1, 7)), 0, 0]
    if sum(sizes) == 0:
        sizes[int(rng.integers(4))] = int(rng.integers(1, 4))
    # order: c and not o | c and o | neither | o and not c
    e = np.cumsum([0] + sizes)
    sl = [slice(e[i], e[i+1]) for i in range(4)]
    n = int(e[-1])
    a, b, c = np.zeros((n, n)), np.zeros((n, m)), np.zeros((p, n))
    for i, j in ((0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (0, 3),
                 (1, 3), (2, 3)):
        if i == j or rng.random() < .7:
            a[sl[i], sl[j]] = ints(rng, sizes[i], sizes[j],
                                   gen.pick(rng, (.4, .8, 1.)))
    b[sl[0]], b[sl[1]] = ints(rng, sizes[0], m), ints(rng, sizes[1], m)
    c[:, sl[1]], c[:, sl[3]] = ints(rng, p, sizes[1]), ints(rng, p, sizes[3])
    # an integer change of coordinates with integer inverse
    for _ in range(int(gen.pick(rng, (0, 2, 4)))):
        i, j = rng.integers(0, n, 2)
        if i != j:
            f = gen.pick(rng, (-1., 1.))
            a[:, j] += f*a[:, i]
            a[i] -= f*a[j]
            c[:, j] += f*c[:, i]
            b[i] -= f*b[j]
    q = rng.permutation(n)
    a, b, c = a[np.ix_(q, q)], b[q], c[:, q]
    f = gen.pick(rng, (1., 1., 1., .5, .125))
    d = ints(rng, p, m) if rng.random() < .6 else np.zeros((p, m))
    if np.max(np.abs(a)) > 12:
        raise Skip('large entries')
    return gen.SS(a*f, b*gen.pick(rng, (1., 1., .25, 2.)), c, d, dt, [])


def wrap(rng, mon, x, pair):
    """The model, or the pair of matrices."""
    if rng.random() < .5:
        return mon.result('build', x.build, rng), 'State'
    u, v = pair
    if rng.random() < .3 and np.all(u == np.round(u)) and \
            np.all(v == np.round(v)) and np.max(np.abs(u)) < 9:
        return (u.astype(int), v.astype(int)), 'ints'
    return (u.copy(), v.copy()), 'tuple'


def matrices(rng, mon):
    x = structure(rng, gen.some_dt(rng))
    n = x.n
    dual = bool(rng.random() < .5)
    name = 'observability' if dual else 'controllability'
    pair = (x.a.T, x.c.T) if dual else (x.a, x.b)
    K = krylov(*pair)
    r = rank(K)
    clear(K, r, 1e-8)
    G, how = wrap(rng, mon, x, (x.a, x.c) if dual else (x.a, x.b))
    f, yes = (observability_matrix, is_kalman_observable) if dual else \
        (controllability_matrix, is_kalman_controllable)
    kw = {}
    compress = bool(rng.random() < .5)
    if compress or rng.random() < .5:
        kw['compress'] = compress
    key = f'{name}:{how}:{"compressed" if compress else "plain"}'
    out = mon.result(f.__name__, f, G, key=key, **kw)
    mon.check(isinstance(out, tuple) and len(out) == 3, key + ':len', '')
    M, T, got_r = out
    data = dict(a=x.a, b=x.b, c=x.c, got_m=M, T=T, rank=r)
    mon.check(got_r == r, key + ':rank', f'rank {got_r} instead of {r}',
              **data)
    T = np.asarray(T)
    mon.check(T.shape == (n, n), key + ':T', f'{T.shape}', **data)
    mon.close(T.T @ T, np.eye(n), key + ':orthogonal', rtol=1e-10, **data)
    s = np.max(np.abs(K)) + 1e-3
    M = np.asarray(M).T if dual else np.asarray(M)
    want = T.T @ K if compress else K
    mon.check(M.shape == K.shape, key + ':shape', f'{M.shape}', **data)
    mon.close(M, want, key + ':value', rtol=1e-10 if compress else 1e-13,
              scale=s, **data)
    low = (T.T @ K)[r:]
    mon.close(low, 0*low, key + ':compressed', rtol=1e-10, scale=s, **data)
    G, how = wrap(rng, mon, x, (x.a, x.c) if dual else (x.a, x.b))
    ans = mon.result(yes.__name__, yes, G, key=f'{name}:{how}:yes')
    mon.check(bool(ans) == (r == n), f'{name}:{how}:answer',
              f'{ans} with rank {r} of {n}', **data)
    mon.nontrivial(pair[0], pair[1], compress, how,
                   bucket=(name, compress, how, n, r, x.shape),
                   sample={'what': name, 'states': n, 'rank': r,
                           'compress': compress, 'given as': how})


def reach(a, b):
    """The states that can be reached from b along nonzero entries."""
    on = np.any(b, axis=1)
    while True:
        new = on | np.any(a[:, on], axis=1)
        if np.array_equal(new, on):
            return on
        on = new


def decomposition(rng, mon):
    x = structure(rng, gen.some_dt(rng))
    n = x.n
    Kc, Ko = krylov(x.a, x.b), krylov(x.a.T, x.c.T).T
    r, ro = rank(Kc), rank(Ko)
    H = Ko @ Kc
    rco = rank(H)
    clear(Kc, r, 1e-5)
    clear(Ko, ro, 1e-5)
    # the part of the state space the observability is judged on
    U = np.linalg.svd(Kc)[0][:, :r]
    clear(Ko @ U, rco, 1e-5)
    V = np.linalg.svd(Ko)[2][ro:].T
    W = V - U @ (U.T @ V)
    if W.size:
        s = np.linalg.svd(W, compute_uv=False)
        if np.any((s > 1e-11) & (s < 1e-3)):
            raise Skip('unclear intersection')
    G = mon.result('build', x.build, rng)
    kw = {}
    withT, mats = bool(rng.random() < .6), bool(rng.random() < .4)
    if withT:
        kw['compute_T'] = True
    if mats:
        kw['output'] = 'matrices'
    if rng.random() < .2:
        kw['cleanup_threshold'] = 0.
    data = dict(a=x.a, b=x.b, c=x.c, ranks=[r, ro, rco])
    if r == 0:
        # nothing to decompose, may be refused
        try:
            out = mon.call('kalman_decomposition', kalman_decomposition, G,
                           **kw)
        except ValueError:
            mon.nontrivial(x.raw(), bucket=('decomp', 'B=0'))
            return
    else:
        out = mon.result('kalman_decomposition', kalman_decomposition, G,
                         key='decomp', **kw)
    T = None
    if withT:
        mon.check(isinstance(out, tuple) and len(out) == 2, 'decomp:len',
                  'the transformation is missing', **data)
        out, T = out
    if mats:
        mon.check(isinstance(out, tuple) and len(out) == 4, 'decomp:len',
                  'four matrices expected', **data)
        A, B, C, D = map(np.asarray, out)
    else:
        mon.check(type(out) is State and out.SamplingPeriod == x.dt,
                  'decomp:kind', f'{out!r}', **data)
        A, B, C, D = out.matrices
    data.update(got_a=A, got_b=B, got_c=C, T=T)
    s = np.max(np.abs(x.a)) + np.max(np.abs(x.b)) + np.max(np.abs(x.c))
    mon.check(A.shape == x.a.shape and B.shape == x.b.shape and
              C.shape == x.c.shape, 'decomp:shape', '', **data)
    mon.close(D, x.d, 'decomp:D', rtol=1e-14, atol=1e-300, **data)
    if T is not None:
        T = np.asarray(T)
        k = np.linalg.cond(T)
        mon.check(T.shape == (n, n) and k < 1e7, 'decomp:T',
                  f'condition number {k}', **data)
        mon.close(T @ A, x.a @ T, 'decomp:A', rtol=1e-8, scale=s*k, **data)
        mon.close(T @ B, x.b, 'decomp:B', rtol=1e-8, scale=s*k, **data)
        mon.close(C, x.c @ T, 'decomp:C', rtol=1e-8, scale=s*k, **data)
    pts = oracle.points(rng, np.r_[x.poles(), np.linalg.eigvals(A)], 4, x.dt)
    want = x.at(pts)
    mon.close(oracle.ss_eval(A, B, C, D, pts), want, 'decomp:value',
              rtol=1e-6, scale=np.max(np.abs(want)) + 1e-3*s, **data)
    # the parts can be told apart by looking at the entries
    A, B, C = (np.where(np.abs(v) > 1e-7*s, v, 0.) for v in (A, B, C))
    ct, ob = reach(A, B), reach(A.T, C.T)
    for what, v, w in (('controllable', ct, r), ('observable', ob, ro),
                       ('minimal', ct & ob, rco)):
        mon.check(v.sum() == w, f'decomp:{what}', f'{v.sum()} states are '
                  f'shown to be {what}, {w} are', **data)
    mon.nontrivial(x.raw(), str(kw),
                   bucket=('decomp', n, r, ro, rco, str(kw)),
                   sample={'states': n, 'controllable': r, 'observable': ro,
                           'both': rco})


def indices(rng, mon):
    if rng.random() < .6:
        x = structure(rng)
        a, b = x.a, x.b
    else:
        n, m = int(rng.integers(1, 8)), int(rng.integers(1, 5))
        a = ints(rng, n, n, gen.pick(rng, (.3, .6)), 2)
        b = ints(rng, n, m, gen.pick(rng, (.3, .8)), 2)
    n, m = b.shape
    # growth of the exact Krylov spaces determines the set of indices
    K = krylov(a, b)
    dims = [rank(K[:, :m*(k+1)]) for k in range(n)]
    steps = np.diff([0] + dims)
    want = [int(np.sum(steps > j)) for j in range(m)]
    # rounding must not matter
    q = np.zeros((n, 0))
    new = b
    for k in range(n):
        for _ in range(2):
            new = new - q @ (q.T @ new)
        u, s, _ = np.linalg.svd(new, full_matrices=False)
        if np.any((s > 1e-10*np.max(s, initial=1.)) & (s < 1e-2)):
            raise Skip('unclear rank')
        q = np.hstack([q, u[:, :int(steps[k])]])
        new = a @ u[:, :int(steps[k])]
    got = mon.result('controllability_indices', controllability_indices,
                     a.copy(), b.copy(), key='indices')
    got = np.asarray(got)
    data = dict(a=a, b=b, wanted=want, indices=got)
    mon.check(got.shape == (m,) and np.all(got == np.round(got)) and
              np.all(got >= 0), 'indices:kind', f'{got!r}', **data)
    mon.check(sorted(got, reverse=True) == want, 'indices:set',
              f'{got} instead of {want} in some order', **data)
    cols = [K[:, [i*m + j]] for j in range(m) for i in range(int(got[j]))]
    if cols:
        mon.check(rank(np.hstack(cols)) == dims[-1], 'indices:assignment',
                  f'the vectors chosen by {got} are dependent', **data)
    mon.nontrivial(a, b, bucket=('indices', n, m, tuple(sorted(got))),
                   sample={'states': n, 'inputs': m,
                           'indices': [int(v) for v in got]})


def gains(rng, mon):
    x = gen.ss(rng, dt=gen.some_dt(rng), gain=1.)
    G = mon.result('build', x.build, rng)
    for f in (is_kalman_controllable, is_kalman_observable):
        ans = mon.result(f.__name__, f, G, key='gain:yes')
        mon.check(bool(ans) is True, 'gain:answer', f'{ans!r}', model=G)
    withT, mats = bool(rng.random() < .5), bool(rng.random() < .5)
    out = mon.result('kalman_decomposition', kalman_decomposition, G,
                     key='gain', compute_T=withT,
                     output='matrices' if mats else 'system')
    if withT:
        mon.check(isinstance(out, tuple) and len(out) == 2 and
                  np.asarray(out[1]).size == 0, 'gain:T', f'{out!r}')
        out = out[0]
    if mats:
        mon.check(isinstance(out, tuple) and len(out) == 4, 'gain:len', '')
        mon.close(out[3], x.d, 'gain:value', rtol=0, atol=1e-300)
    else:
        mon.check(out._isgain and out.SamplingPeriod == x.dt, 'gain:kind', '')
        mon.close(out.d, x.d, 'gain:value', rtol=0, atol=1e-300)
    mon.nontrivial(x.raw(), bucket=('gain', x.shape, withT, mats))


WORKLOADS = [Workload('matrices', matrices, 6000),
             Workload('decomposition', decomposition, 6000),
             Workload('indices', indices, 6000),
             Workload('gains', gains, 200)]
