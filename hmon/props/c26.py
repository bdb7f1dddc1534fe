"""Matrix helpers."""
import numpy as np
from harold import (concatenate_state_matrices, e_i, haroldker, haroldsvd,
                    matrix_slice, pair_complex_numbers)

from .. import gen
from ..core import Skip, Workload
from .c23 import rank

ID = 'C26'
RULE = ('distinct inputs of the matrix helpers whose results were compared '
        'with the defining equations or with plain indexing')
ASSUMPTIONS = ['ranks are those of integer matrices, known exactly, with '
               'nonzero singular values above 1e-8 of the largest one']


def any_matrix(rng, cplx=.25):
    """An integer matrix of known rank, sometimes complex."""
    p, m = (int(v) for v in rng.integers(1, 7, 2))
    u = rng.random()
    if u < .1:
        x = np.zeros((p, m))
    elif u < .4:
        x = rng.integers(-3, 4, (p, m)) * 1.
    else:
        k = int(rng.integers(1, min(p, m) + 1))
        x = (rng.integers(-3, 4, (p, k)) @ rng.integers(-3, 4, (k, m))) * 1.
    r = rank(x)
    if rng.random() < cplx:
        # unitary with exact entries: keeps the rank
        x = np.diag(gen.pick(rng, ((1, 1j, -1, -1j)*2, (1j,)*6))[:p]) @ x
    else:
        x = x*2.**rng.integers(-12, 13)
    s = np.linalg.svd(x, compute_uv=False)
    if r and s[r-1] < 1e-8*s[0]:
        raise Skip('unclear rank')
    return x, r


def dress(rng, x):
    u = rng.random()
    if u < .6 or np.iscomplexobj(x):
        return x.copy()
    if u < .75 and np.all(x == np.round(x)):
        return x.astype(int)
    return x.tolist()


def svd(rng, mon):
    x, r = any_matrix(rng)
    p, m = x.shape
    kw = {}
    tol = None
    if rng.random() < .7:
        kw['also_rank'] = True
        sv = np.linalg.svd(x, compute_uv=False)
        if rng.random() < .4 and r:
            k = int(rng.integers(0, r+1))
            lo = sv[k] if k < len(sv) else 0.
            hi = 2*sv[0] if k == 0 else sv[k-1]
            if hi - lo > 1e-3*sv[0]:
                tol = kw['rank_tol'] = float((lo + hi)/2)
                r = k
    out = mon.result('haroldsvd', haroldsvd, dress(rng, x), key='svd', **kw)
    mon.check(isinstance(out, tuple) and len(out) == (4 if kw else 3),
              'svd:len', f'{len(out)}')
    U, S, V = out[:3]
    s = np.linalg.norm(x) + 1e-300
    data = dict(matrix=x, U=U, S=S, V=V)
    mon.check(U.shape == (p, p) and S.shape == (p, m) and V.shape == (m, m),
              'svd:shape', f'{U.shape} {S.shape} {V.shape}', **data)
    mon.close(U.conj().T @ U, np.eye(p), 'svd:U', rtol=1e-12, **data)
    mon.close(V.conj().T @ V, np.eye(m), 'svd:V', rtol=1e-12, **data)
    mon.close(U @ S @ V, x, 'svd:rebuild', rtol=1e-12, scale=s, **data)
    d = np.diagonal(S)
    off = S.copy()
    off[np.arange(len(d)), np.arange(len(d))] = 0
    mon.check(not np.any(off) and np.all(d >= 0) and np.all(np.diff(d) <= 0),
              'svd:order', f'{S}', **data)
    if kw:
        mon.check(out[3] == r, 'svd:rank', f'rank {out[3]} instead of {r}',
                  tol=tol, **data)
    mon.nontrivial(x, tol, bool(kw),
                   bucket=('svd', p, m, r, tol is None, np.iscomplexobj(x)),
                   sample={'shape': [p, m], 'rank': r, 'tol': tol})


def kernel(rng, mon):
    x, r = any_matrix(rng)
    side = gen.pick(rng, ('right', 'left'))
    kw = {} if side == 'right' and rng.random() < .5 else {'side': side}
    out = mon.result('haroldker', haroldker, dress(rng, x), key='ker', **kw)
    out = np.asarray(out)
    y = x if side == 'right' else x.conj().T
    n = y.shape[1]
    k = n - r
    data = dict(matrix=x, side=side, basis=out)
    mon.check(out.shape == (n, max(k, 1)), 'ker:shape',
              f'{out.shape} instead of {(n, max(k, 1))}', **data)
    mon.close(y @ out, np.zeros((y.shape[0], max(k, 1))), 'ker:null',
              rtol=1e-12, scale=np.linalg.norm(x) + 1e-300, **data)
    want = np.eye(k) if k else np.zeros((1, 1))
    mon.close(out.conj().T @ out, want, 'ker:orthonormal', rtol=1e-12,
              atol=1e-300, **data)
    mon.nontrivial(x, side, bucket=('ker', side, x.shape, r,
                                    np.iscomplexobj(x)),
                   sample={'shape': list(x.shape), 'side': side,
                           'dimension': k})


def refused(rng, mon):
    u = int(rng.integers(6))
    if u == 5:
        # as many complex numbers as it takes, all on one side
        k = 2*int(rng.integers(1, 3))
        z = np.array([complex(*rng.integers(1, 9, 2)) for _ in range(k)])
        if rng.random() < .5:
            z = z.conj()
        mon.rejected('pair_complex_numbers', pair_complex_numbers,
                     np.r_[z, 1., 2.], exc=ValueError, key='onesided')
    elif u == 0:
        mon.rejected('haroldker', haroldker, np.eye(2), exc=ValueError,
                     key='side', side=gen.pick(rng, ('up', 'r', None)))
    elif u == 1:
        x = np.eye(3)
        x[int(rng.integers(3)), 0] = gen.pick(rng, (np.nan, np.inf))
        mon.rejected('haroldsvd', haroldsvd, x, key='finite')
    elif u == 2:
        mon.rejected('matrix_slice', matrix_slice, np.eye(3), (1, 1),
                     gen.pick(rng, ('north', 'n', '')), exc=ValueError,
                     key='corner')
    elif u == 3:
        z = [complex(*rng.integers(1, 9, 2)) for _ in range(
            int(gen.pick(rng, (1, 3))))]
        mon.rejected('pair_complex_numbers', pair_complex_numbers, z + [1.],
                     exc=ValueError, key='odd')
    else:
        z = complex(*rng.integers(1, 9, 2))
        w = z.conjugate() + gen.pick(rng, (1e-3, 1e-3j, 1., 5j, 1e-6))
        mon.rejected('pair_complex_numbers', pair_complex_numbers,
                     [z, w, 2.], exc=ValueError, key='unpaired')
    mon.nontrivial(u, rng.random(), bucket=('refused', u))


def pairing(rng, mon):
    noisy = bool(rng.random() < .4)
    tol = gen.pick(rng, (None, 1e-7, 1e-6)) if noisy else None
    e = .2*(tol or 1e-9)
    nr, nc = int(rng.integers(0, 5)), int(rng.integers(0, 5))
    re = [float(rng.integers(-16, 17)/4) for _ in range(nr)]
    if nr > 1 and rng.random() < .3:
        re[0] = re[1]
    parts = rng.integers(-3, 4, nc)/2
    cs = [complex(v, rng.integers(1, 9)/4) for v in parts]
    if nc > 1 and rng.random() < .4:
        cs[0] = cs[1]
    z = []
    for v in re:
        z.append(v + (1j*rng.uniform(-1, 1)*.2e-9 if noisy else 0))
    for v in cs:
        z.append(v)
        w = v.conjugate()
        if noisy:
            w = w + complex(*rng.uniform(-e, e, 2))
        z.append(w)
    z = [z[i] for i in rng.permutation(len(z))]
    pos, first = bool(rng.random() < .4), bool(rng.random() < .6)
    kw = {}
    if pos or rng.random() < .3:
        kw['positives_first'] = pos
    if not first or rng.random() < .3:
        kw['reals_first'] = first
    if tol is not None:
        kw['tol'] = tol
    arg = np.array(z) if rng.random() < .6 else z
    if not cs and not noisy:
        arg = np.array(z, dtype=complex).real if rng.random() < .5 else z
    out = np.asarray(mon.result('pair_complex_numbers', pair_complex_numbers,
                                arg, key='pairing', **kw))
    data = dict(numbers=z, paired=out, kw=str(kw))
    mon.check(out.shape == (len(z),), 'pairing:length', f'{out.shape}',
              **data)
    if z:
        reals = out[:nr] if first else out[2*nc:]
        comp = out[nr:] if first else out[:2*nc]
        a = 2e-9 + 4*e
        if np.iscomplexobj(reals):
            mon.close(reals.imag, 0*reals.imag, 'pairing:reals', rtol=0,
                      atol=a, **data)
        mon.close(np.sort(reals.real), np.sort(re), 'pairing:real-values',
                  rtol=0, atol=a, **data)
        mon.check(np.array_equal(comp[1::2], comp[::2].conj()),
                  'pairing:adjacent', 'the pairs are not conjugate', **data)
        sign = comp[::2].imag > 0
        mon.check(np.all(sign == pos), 'pairing:order',
                  'wrong member of the pair is first', **data)
        key = (lambda v: (round(v.real, 4), round(abs(v.imag), 4)))
        mon.close(np.array(sorted([complex(v.real, abs(v.imag))
                                   for v in comp[::2]], key=key)),
                  np.array(sorted(cs, key=key)), 'pairing:values', rtol=0,
                  atol=a, **data)
    mon.nontrivial(z, str(kw), bucket=('pairing', nr, nc, pos, first, noisy),
                   sample={'reals': nr, 'pairs': nc, 'options': str(kw)})


def unit(rng, mon):
    n = int(rng.integers(1, 8))
    eye = np.eye(n)
    u = int(rng.integers(6))
    if u == 0:
        nth = int(rng.integers(-n, n))
    elif u == 1:
        nth = [int(v) for v in rng.integers(-n, n, int(rng.integers(1, 6)))]
    elif u == 2:
        a, b = (int(v) for v in rng.integers(-n-1, n+2, 2))
        nth = slice(a, b, gen.pick(rng, (None, 1, 2, -1)))
    elif u == 3:
        nth = rng.random(n) < .5
    elif u == 4:
        nth = np.array(rng.integers(0, n, int(rng.integers(1, 5))))
    else:
        nth = slice(None)
    o = gen.pick(rng, 'cr')
    kw = {} if o == 'c' and rng.random() < .5 else {'output': o}
    cols = np.arange(n)[nth]
    want = eye[:, np.atleast_1d(cols)]
    out = mon.result('e_i', e_i, n, nth, key='unit', **kw)
    mon.check(out.shape == (want.shape if o == 'c' else want.T.shape),
              'unit:shape', f'{out.shape}', n=n, nth=str(nth))
    mon.check(np.array_equal(out, want if o == 'c' else want.T),
              'unit:value', f'{out}', n=n, nth=str(nth), output=o)
    mon.nontrivial(n, str(nth), o, bucket=('unit', n, u, o))


def corners(rng, mon):
    p, m = (int(v) for v in rng.integers(1, 7, 2))
    x = rng.integers(-9, 10, (p, m)) * gen.pick(rng, (1, 1., .25))
    z, w = int(rng.integers(0, p+1)), int(rng.integers(0, m+1))
    corner = gen.pick(rng, ('nw', 'ne', 'sw', 'se'))
    kw = {} if corner == 'nw' and rng.random() < .5 else {'corner': corner}
    out = mon.result('matrix_slice', matrix_slice, x, (z, w), key='corners',
                     **kw)
    mon.check(len(out) == 4, 'corners:len', f'{len(out)}')
    i = {'nw': 0, 'ne': 1, 'sw': 2, 'se': 3}[corner]
    rows = z if corner[0] == 'n' else p - z
    cols = w if corner[1] == 'w' else m - w
    want = (x[:rows, :cols], x[:rows, cols:], x[rows:, :cols],
            x[rows:, cols:])
    mon.check(np.asarray(out[i]).shape == (z, w), 'corners:requested',
              f'the {corner} corner is {np.asarray(out[i]).shape} instead of '
              f'{(z, w)}', matrix=x)
    for u, v in zip(out, want):
        mon.check(np.asarray(u).size == v.size and
                  (v.size == 0 or np.array_equal(u, v)), 'corners:value',
                  f'{u} instead of {v}', matrix=x, corner=corner,
                  size=(z, w))
    mon.nontrivial(x, z, w, corner, bucket=('corners', p, m, z, w, corner))


def stacked(rng, mon):
    x = gen.ss(rng, gain=.2)
    G = mon.result('build', x.build, rng)
    out = mon.result('concatenate_state_matrices',
                     concatenate_state_matrices, G, key='stacked')
    want = np.block([[x.a, x.b], [x.c, x.d]]) if x.n else x.d
    mon.check(np.asarray(out).shape == want.shape, 'stacked:shape',
              f'{np.asarray(out).shape}', model=G)
    mon.close(out, want, 'stacked:value', rtol=1e-15, atol=1e-300, model=G)
    y = gen.tf(rng)
    H = mon.result('build', y.build, rng)
    mon.rejected('concatenate_state_matrices', concatenate_state_matrices,
                 H, exc=ValueError, key='stacked:transfer')
    mon.nontrivial(x.raw(), bucket=('stacked', x.n, x.shape))


WORKLOADS = [Workload('svd', svd, 4000), Workload('kernel', kernel, 4000),
             Workload('pairing', pairing, 5000),
             Workload('unit', unit, 1500), Workload('corners', corners, 1500),
             Workload('stacked', stacked, 500),
             Workload('refused', refused, 400)]
