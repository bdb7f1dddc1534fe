"""Pole placement with Ackermann's formula."""
import numpy as np
from harold import State, ackermann

from .. import gen
from ..core import Skip, Workload

ID = 'C19'
RULE = ('distinct (A, B, locations) problems whose closed loop characteristic '
        'polynomial was compared with the requested one')
ASSUMPTIONS = ['the controllability matrix is well conditioned (below 1e5)']
REFUSE = (ValueError,)


def pair(rng, dt, n):
    for _ in range(30):
        x = gen.ss(rng, dt=dt, n=n, shp=(1, 1))
        k = np.hstack([np.linalg.matrix_power(x.a, i) @ x.b
                       for i in range(n)])
        if np.linalg.cond(k) < 1e4:
            return x
    raise Skip('no controllable pair found')


def locations(rng, n, dt):
    rts = gen.roots(rng, n, dt, gen.pick(rng, ('any', 'stable')), repeat=.2)
    return rng.permutation(gen.expand(rts))


def ways(rng, loc):
    if np.all(loc.imag == 0):
        loc = loc.real
        if np.all(loc == np.round(loc)) and rng.random() < .5:
            loc = loc.astype(int)
    if loc.size == 1 and rng.random() < .2:
        return loc[0]
    u = rng.random()
    return loc.tolist() if u < .4 else tuple(loc.tolist()) if u < .5 else \
        loc.copy()


def place(rng, mon):
    dt = gen.some_dt(rng)
    n = int(rng.integers(1, 6))
    x = pair(rng, dt, n)
    loc = locations(rng, n, dt)
    f = 2.**rng.integers(-20, 21, 2) if rng.random() < .25 else np.ones(2)
    # other units of time (of continuous models) and of the input
    w = f[0]**(1/max(n-1, 1)) if dt is None else 1.
    w = 2.**np.round(np.log2(w))
    x, loc = gen.SS(x.a*w, x.b*f[1], x.c, x.d, dt), loc*w
    k = np.hstack([np.linalg.matrix_power(x.a, i) @ x.b for i in range(n)])
    if np.linalg.cond(k) > 1e7:
        raise Skip('badly scaled controllability matrix')
    if rng.random() < .5:
        G = mon.result('build', x.build, rng)
    else:
        G = (x.a.copy(), x.b.copy())
    key = 'complex' if np.any(loc.imag) else 'real'
    K = mon.result('ackermann', ackermann, G, ways(rng, loc), key=key)
    K = np.asarray(K)
    data = dict(a=x.a, b=x.b, locations=loc)
    mon.check(K.shape == (1, n) and np.isrealobj(K), key + ':shape',
              f'gain of shape {K.shape}', **data)
    got = np.poly((x.a - x.b @ K)/w)
    want = np.poly(loc/w).real
    nk = (np.linalg.norm(x.a) + np.linalg.norm(x.b)*np.linalg.norm(K))/w
    sc = np.array([max(1., nk)**k for k in range(n+1)])
    mon.close(got, want, key + ':poles', rtol=1e-7, scale=sc, gain=K, **data)
    mon.nontrivial(x.a, x.b, loc, bucket=(n, key, dt is None,
                                          isinstance(G, tuple)),
                   sample={'n': n, 'locations': [str(v) for v in loc]})


def mixed(rng, a, b):
    """The pair in other coordinates, again without any rounding."""
    n = len(a)
    t = np.eye(n)
    for _ in range(n):
        i, j = rng.choice(n, 2, replace=False)
        k = float(rng.integers(-2, 3))
        t[i] += k*t[j]
    ti = np.round(np.linalg.inv(t))
    if not np.array_equal(t @ ti, np.eye(n)):
        raise Skip('change of coordinates')
    a, b = t @ a @ ti, t @ b
    k = np.hstack([np.linalg.matrix_power(a, i) @ b for i in range(n)])
    s = np.linalg.svd(k, compute_uv=False)
    if s[-1] > .3*n*np.spacing(s[0]):
        raise Skip('rank is not clear')
    return a, b


def refused(rng, mon):
    what = gen.pick(rng, ('inputs', 'uncontrollable', 'short', 'long',
                          'unpaired', '2d'))
    dt = gen.some_dt(rng)
    n = int(rng.integers(2, 5))
    if what == 'inputs':
        x = gen.ss(rng, dt=dt, n=n, shp=(1, 2))
    elif what == 'uncontrollable':
        a = gen.real_blocks(gen.roots(rng, n, dt, 'any', 0.))
        b = gen.matrix(rng, n, 1, 0.)
        # real or complex block that the input does not reach
        k = 1
        while k < n and a[n-k:, :n-k].any():
            k += 1
        if k == n:
            raise Skip('one block only')
        b[n-k:] = 0.
        q = np.eye(n)[rng.permutation(n)]
        a, b = q @ a @ q.T, q @ b
        if rng.random() < .6:
            a, b = mixed(rng, a, np.round(b))
        x = gen.SS(a, b, np.ones((1, n)), np.zeros((1, 1)), dt)
    else:
        x = pair(rng, dt, n)
    loc = locations(rng, n, dt)
    if what == 'short':
        loc = loc.real[:-1]
    elif what == 'long':
        loc = np.r_[loc, .5]
    elif what == 'unpaired':
        loc = loc + 0j
        loc[0] = loc[0].real + 1j
        loc[1:] = loc[1:].real
    elif what == '2d':
        loc = np.vstack([loc.real, loc.real])
    G = State(x.a, x.b, x.c, x.d, dt) if rng.random() < .5 else (x.a, x.b)
    if np.all(np.imag(loc) == 0):
        loc = loc.real
    mon.rejected('ackermann', lambda: ackermann(G, loc), exc=REFUSE,
                 key=f'refused:{what}')
    mon.nontrivial(what, x.raw(), loc, bucket=(what, n, dt is None))


WORKLOADS = [Workload('place', place, 10000),
             Workload('refused', refused, 4000)]
