"""Transmission zeros."""
import numpy as np
from harold import State, Transfer, transmission_zeros

from .. import gen, oracle
from ..core import Skip, Workload

ID = 'C10'
RULE = ('distinct systems whose reported zeros were compared with the zeros '
        'they were built with')
ASSUMPTIONS = ['the data is exactly representable, the zeros lie on a dyadic '
               'grid and B and C are not identically zero']


def unimodular(rng, n, steps=None):
    """Integer matrix with integer inverse, and that inverse."""
    t, ti = np.eye(n), np.eye(n)
    for _ in range(n if steps is None else steps):
        if n < 2:
            break
        i, j = rng.permutation(n)[:2]
        k = float(gen.pick(rng, (-1, 1)))
        t[i] += k*t[j]          # E t
        ti[:, j] -= k*ti[:, i]  # ti E^-1
    p = rng.permutation(n)
    return t[p], ti[:, p]


def morse(rng):
    """A system with known zeros, from its structure under the group of
    state feedback, output injection and changes of basis.

    zero dynamics (nz states), input/output chains (infinite zeros), inputs
    without output and outputs without input (degenerate directions).
    """
    dt = gen.some_dt(rng)
    nz = int(rng.integers(0, 4))
    rts = gen.roots(rng, nz, dt, repeat=.1)
    style = gen.pick(rng, ('square', 'square', 'wide', 'tall', 'degenerate'))
    chains = [int(rng.integers(0, 3)) for _ in range(int(rng.integers(1, 4)))]
    cin = [int(rng.integers(0, 3)) for _ in range(int(rng.integers(1, 3)))] \
        if style in ('wide', 'degenerate') else []
    cout = [int(rng.integers(0, 3)) for _ in range(int(rng.integers(1, 3)))] \
        if style in ('tall', 'degenerate') else []
    n = nz + sum(chains) + sum(cin) + sum(cout)
    if n == 0 or n > 8:
        return None
    m, p = len(chains) + len(cin), len(chains) + len(cout)
    a, b = np.zeros((n, n)), np.zeros((n, m))
    c, d = np.zeros((p, n)), np.zeros((p, m))
    a[:nz, :nz] = gen.real_blocks(rts)
    k = nz
    for i, q in enumerate(chains):
        if q == 0:
            d[i, i] = 1.
            continue
        for r in range(q-1):
            a[k+r, k+r+1] = 1.
        c[i, k], b[k+q-1, i] = 1., 1.
        k += q
    for i, q in enumerate(cin):
        if q:
            for r in range(q-1):
                a[k+r, k+r+1] = 1.
            b[k+q-1, len(chains)+i] = 1.
            k += q
    for i, q in enumerate(cout):
        if q:
            for r in range(q-1):
                a[k+r, k+r+1] = 1.
            c[len(chains)+i, k] = 1.
            k += q
    f = rng.integers(-1, 2, (m, n)).astype(float)
    g = rng.integers(-1, 2, (n, p)).astype(float)
    if rng.random() < .2:
        f[:] = 0
    if rng.random() < .2:
        g[:] = 0
    a, c = a + b @ f, c + d @ f
    a, b = a + g @ c, b + g @ d
    t, ti = unimodular(rng, n)
    u, _ = unimodular(rng, m, 1)
    v, _ = unimodular(rng, p, 1)
    a, b, c, d = t @ a @ ti, t @ b @ u, v @ c @ ti, v @ d @ u
    if rng.random() < .3:
        # orthogonal coordinates instead of exact ones
        q = gen.orth(rng, n)
        a, b, c = q.T @ a @ q, q.T @ b, c @ q
        style += '-orth'
    return style, chains, cin, cout, rts, (a, b, c, d), dt


def compare(mon, key, got, rts, scale, **data):
    got = np.ravel(np.asarray(got, dtype=complex))
    fin = got[np.isfinite(got)]
    mon.check(fin.size == got.size, key + ':infinite',
              'a zero at infinity is reported', got=got, want=rts, **data)
    mon.check(got.size == rts.size, key + ':count',
              f'{got.size} zeros instead of {rts.size}', got=got, want=rts,
              **data)
    if rts.size:
        r = max(1., np.max(np.abs(rts)))
        mon.close(np.poly(got/r), np.poly(rts/r), key + ':zeros', rtol=1e-6,
                  scale=max(1., scale/r), zeros=got, expected=rts, **data)


def structured(rng, mon):
    x = morse(rng)
    if x is None:
        raise Skip('no states or too many')
    style, chains, cin, cout, rts, (a, b, c, d), dt = x
    if not b.any() or not c.any():
        raise Skip('B or C is zero')
    if np.linalg.norm(a) > 60:
        raise Skip('badly scaled')
    want = gen.expand(rts)
    data = dict(a=a, b=b, c=c, d=d, chains=[chains, cin, cout])
    key = f'structured:{style}'
    z = mon.result('transmission_zeros', transmission_zeros, a.copy(),
                   b.copy(), c.copy(), d.copy())
    compare(mon, key, z, want, np.linalg.norm(a), **data)
    G = mon.result('State', State, a, b, c, d, dt)
    compare(mon, key + ':attribute', G.zeros, want, np.linalg.norm(a), **data)
    mon.nontrivial(a, b, c, d, bucket=(style, d.shape, len(rts), a.shape),
                   sample={'style': style, 'chains': [chains, cin, cout],
                           'zeros': [str(r) for r in rts]})


def siso(rng, mon):
    dt = gen.some_dt(rng)
    n = int(rng.integers(1, 6))
    k = int(rng.integers(0, n+1))
    rts = gen.roots(rng, k, dt, 'any', repeat=.15)
    num = gen.lead(rng)*gen.poly(rts)
    prts = gen.roots(rng, n, dt, repeat=.1)
    den = gen.lead(rng)*gen.poly(prts)
    G = mon.result('Transfer', Transfer, num, den, dt)
    compare(mon, 'siso:transfer', G.zeros, gen.expand(rts), 1., num=num,
            den=den)
    # companion realization of the same fraction; the system matrix has
    # determinant num also if factors cancel
    dd = den/den[0]
    nn = np.r_[np.zeros(n-k), num]/den[0]
    a = np.eye(n, k=1)
    a[-1] = -dd[:0:-1]
    b = np.eye(n)[:, -1:]
    c = (nn - nn[0]*dd)[:0:-1][None]
    if np.any(c):
        if n <= 4 and rng.random() < .5:
            t, ti = unimodular(rng, n)
            if np.linalg.norm(t @ a @ ti) < 60:
                a, b, c = t @ a @ ti, t @ b, c @ ti
        H = mon.result('State', State, a, b, c, nn[0], dt)
        compare(mon, 'siso:state', H.zeros, gen.expand(rts),
                np.linalg.norm(a), a=a, b=b, c=c, d=nn[0])
    mon.nontrivial(num, den, dt, bucket=('siso', n, k, dt is None))


def diagonal(rng, mon):
    """Permuted diagonal transfer matrices, and single rows or columns."""
    dt = gen.some_dt(rng)
    p = int(rng.integers(2, 4))
    # distinct grid points, so that no factors are shared
    grid = rng.permutation(np.arange(1, 17))/4
    if dt is not None:
        grid = rng.permutation(np.arange(-14, 15))/16
    sgn = -1 if dt is None else 1
    grid = list(sgn*grid)
    num = [[np.array([0.]) for _ in range(p)] for _ in range(p)]
    den = [[np.array([1.]) for _ in range(p)] for _ in range(p)]
    perm = rng.permutation(p)
    want = []
    for i in range(p):
        nd = int(rng.integers(1, 3))
        nn = int(rng.integers(0, nd+1))
        pr = [grid.pop() for _ in range(nd)]
        zr = [grid.pop() for _ in range(nn)]
        num[i][perm[i]] = gen.lead(rng)*gen.poly(zr)
        den[i][perm[i]] = gen.lead(rng)*gen.poly(pr)
        want += zr
    x = gen.TF(num, den, dt)
    G = mon.result('build', x.build, rng)
    compare(mon, 'diagonal', G.zeros, np.array(want, complex), 10.,
            raw=x.raw())
    mon.nontrivial(x.raw(), bucket=('diag', p, len(want), dt is None))


def vector(rng, mon):
    """A single row or column over one denominator: the common roots."""
    dt = gen.some_dt(rng)
    grid = list(rng.permutation(np.arange(1, 13))/-4 if dt is None else
                rng.permutation(np.arange(-14, 15))/16)
    q = int(rng.integers(2, 4))
    k = int(rng.integers(0, 3))
    common = [grid.pop() for _ in range(k)]
    n = int(rng.integers(k+1, k+3))
    den = gen.poly([grid.pop() for _ in range(n)])
    nums = []
    for _ in range(q):
        e = int(rng.integers(0, n-k+1))
        nums.append(gen.lead(rng)*gen.poly(common + [grid.pop() for _ in
                                                     range(e)]
                                           if len(grid) > e else common))
    nums[0] = gen.lead(rng)*gen.poly(common)
    row = rng.random() < .5
    x = gen.TF([nums] if row else [[v] for v in nums],
               [[den]*q] if row else [[den] for _ in nums], dt)
    G = mon.result('build', x.build, rng)
    compare(mon, 'vector', G.zeros, np.array(common, complex), 10.,
            raw=x.raw())
    mon.nontrivial(x.raw(), bucket=('vec', q, k, row, dt is None))


def separated(rng, mon):
    """No input reaches any output: only the modes that are neither reached
    nor seen are zeros."""
    dt = gen.some_dt(rng)
    n1, n2, n3 = (int(v) for v in rng.integers((1, 1, 0), (3, 3, 3)))
    p, m = gen.shape(rng, 2)
    rts = gen.roots(rng, n3, dt, 'any', 0.)
    a1, a2 = (gen.real_blocks(gen.roots(rng, k, dt, 'any', 0.))
              for k in (n1, n2))
    n = n1 + n2 + n3
    s1, s2, s3 = slice(0, n1), slice(n1, n1+n2), slice(n1+n2, n)
    a, b, c = np.zeros((n, n)), np.zeros((n, m)), np.zeros((p, n))
    a[s1, s1], a[s2, s2] = a1, a2
    b[s1], c[:, s2] = gen.matrix(rng, n1, m, 0.), gen.matrix(rng, p, n2, 0.)
    if n3:
        a[s3, s3] = gen.real_blocks(rts)
    if rng.random() < .6:
        a[s1, s2] = gen.matrix(rng, n1, n2)
        a[s3, s2] = gen.matrix(rng, n3, n2) if n3 else 0.
        a[s1, s3] = gen.matrix(rng, n1, n3) if n3 else 0.
    # the driven part is reached and the seen part is seen, clearly
    for x, y in ((a1, b[s1]), (a2.T, c[:, s2].T)):
        k = len(x)
        w = np.hstack([np.linalg.matrix_power(x, i) @ y for i in range(k)])
        w = np.linalg.svd(w, compute_uv=False)
        v = np.linalg.svd(y, compute_uv=False)
        if w[k-1] <= .05*w[0] or v[-1] <= .05*v[0]:
            raise Skip('not clearly reached or seen')
    form = gen.pick(rng, ('plain', 'perm', 'orth'))
    if form != 'plain':
        q = gen.orth(rng, n) if form == 'orth' else \
            np.eye(n)[rng.permutation(n)]
        a, b, c = q @ a @ q.T, q @ b, c @ q.T
    z = mon.result('transmission_zeros', transmission_zeros, a.copy(),
                   b.copy(), c.copy(), np.zeros((p, m)))
    compare(mon, 'separated', z, gen.expand(rts), np.linalg.norm(a), a=a, b=b,
            c=c)
    mon.nontrivial(a, b, c, bucket=('sep', n1, n2, n3, p, m, form))


def timescale(rng, mon):
    """Continuous models with time measured in other units."""
    n = int(rng.integers(1, 5))
    k = int(rng.integers(0, n+1))
    f = float(10**rng.uniform(-4, 4))
    rts = [f*r for r in gen.roots(rng, k, None, 'any', 0.)]
    prts = [f*r for r in gen.roots(rng, n, None, 'any', 0.)]
    num, den = gen.lead(rng)*gen.poly(rts), gen.poly(prts)
    G = mon.result('Transfer', Transfer, num, den)
    z = np.ravel(G.zeros)/f
    compare(mon, 'timescale', z, gen.expand(rts)/f, 10., num=num, den=den)
    mon.nontrivial(num, den, bucket=('time', n, k, int(np.log10(f))))


WORKLOADS = [Workload('structured', structured, 12000),
             Workload('siso', siso, 8000),
             Workload('diagonal', diagonal, 4000),
             Workload('vector', vector, 4000),
             Workload('separated', separated, 4000),
             Workload('timescale', timescale, 3000)]
