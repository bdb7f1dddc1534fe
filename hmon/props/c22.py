"""Staircase and Hessenberg forms."""
import numpy as np
from harold import State, hessenberg_realization, staircase

from .. import gen, oracle
from ..core import Skip, Workload
from .c21 import planted

ID = 'C22'
RULE = ('distinct (model, form, invert) inputs whose transformed matrices '
        'were rebuilt from the returned transformation and whose zero '
        'pattern was compared with the true reachable subspaces')
ASSUMPTIONS = ['the ranks that shape the staircase are clear: singular '
               'values are above 1e-3 or at rounding level',
               'with several inputs the Hessenberg form can only compress '
               'the first one']


def ranks(a, b):
    """Dimensions of span B, span [B AB], ... until they stop growing."""
    n = len(a)
    q = np.zeros((n, 0))
    new = b
    out = []
    while q.shape[1] < n:
        new = new - q @ (q.T @ new)
        new = new - q @ (q.T @ new)
        u, s, _ = np.linalg.svd(new, full_matrices=False)
        r = int(np.sum(s > 1e-3))
        if np.any((s > 1e-11) & (s <= 1e-3)):
            raise Skip('unclear rank')
        if r == 0:
            break
        q = np.hstack([q, u[:, :r]])
        out.append(q.shape[1])
        new = a @ u[:, :r]
    return out


def similar(mon, key, old, new, T, data):
    a, b, c = old
    n = len(a)
    T = np.asarray(T)
    mon.close(T.T @ T, np.eye(n), key + ':orthogonal', rtol=1e-10, **data)
    for v, old, got in zip('ABC', (T.T @ a @ T, T.T @ b, c @ T), new):
        mon.close(got, old, f'{key}:{v}', rtol=1e-10,
                  scale=np.linalg.norm(old), **data)


def units(rng, x):
    """Powers of two for the units of time, inputs and outputs."""
    if rng.random() < .5:
        return 1., 1., 1.
    t, u, y = 2.**rng.integers(-30, 31, 3)
    if x.dt is not None:
        t = 1.
    return t, t*u, y


def model(rng):
    dt = gen.some_dt(rng)
    u = rng.random()
    if u < .6:
        return planted(rng, dt)[0]
    x = gen.ss(rng, dt=dt, gain=0., nmax=6)
    if u < .65:
        x.b[:] = 0.
    elif u < .7:
        x.c[:] = 0.
    elif u < .8:
        # more inputs and outputs than states, possibly of full rank
        n = int(rng.integers(1, 4))
        x = gen.ss(rng, dt=dt, n=n, shp=(int(rng.integers(n, n+3)),
                                         int(rng.integers(n, n+3))))
    return x


def stairs(rng, mon):
    x = model(rng)
    form = gen.pick(rng, 'co')
    invert = bool(rng.random() < .5)
    dual = (x.a, x.b) if form == 'c' else (x.a.T, x.c.T)
    if np.any(np.abs(dual[1])) and np.linalg.norm(dual[1], 2) < 1e-3:
        raise Skip('unclear rank')
    r = ranks(*dual)
    f = units(rng, x)
    x.a, x.b, x.c = (v*w for v, w in zip((x.a, x.b, x.c), f))
    key = f'staircase:{form}{"i" if invert else ""}'
    args = [v.copy() for v in (x.a, x.b, x.c)]
    kw = {}
    if form == 'o' or rng.random() < .5:
        kw['form'] = form
    if invert or rng.random() < .5:
        kw['invert'] = invert
    if rng.random() < .3:
        kw['compute_T'] = True
    out = mon.result('staircase', staircase, *args, key=key, **kw)
    mon.check(isinstance(out, tuple) and len(out) == 4, key + ':len',
              'four arrays expected')
    A, B, C, T = map(np.asarray, out)
    data = dict(a=x.a, b=x.b, c=x.c, got_a=A, got_b=B, got_c=C, T=T)
    similar(mon, key, (x.a, x.b, x.c), (A, B, C), T, data)
    # the zero pattern, read in the order of the plain controllable form
    a, b = (A, B) if form == 'c' else (A.T, C.T)
    if invert and r:
        a, b = a[::-1, ::-1], b[::-1]
    edges = [0] + r
    if r:
        mon.close(b[r[0]:], 0*b[r[0]:], key + ':input', rtol=1e-10,
                  scale=np.linalg.norm(b), **data)
    for i in range(len(r)):
        # states reached up to step i drive those of step i+1 at most
        lo = r[i+1] if i+1 < len(r) else r[-1]
        z = a[lo:, edges[i]:edges[i+1]]
        mon.close(z, 0*z, key + ':steps', rtol=1e-9,
                  scale=np.linalg.norm(a), **data)
    n = len(x.a)
    mon.nontrivial(x.raw(), form, invert,
                   bucket=(form, invert, n, tuple(np.diff(edges))),
                   sample={'form': form, 'invert': invert, 'states': n,
                           'steps': [int(v) for v in np.diff(edges)]})


def hessen(rng, mon):
    form = gen.pick(rng, 'co')
    invert = bool(rng.random() < .5)
    f = 1., 1., 1.
    how = gen.pick(rng, ('state', 'state', 'transfer', 'tuple'))
    if how == 'transfer':
        x = gen.tf(rng, gain=0.)
        if not any(len(d) > 1 and np.any(n) for u, v in zip(x.num, x.den)
                   for n, d in zip(u, v)):
            raise Skip('no dynamics left')
        G = mon.result('build', x.build, rng)
    else:
        x = model(rng)
        f = units(rng, x)
        x.a, x.b, x.c = (v*w for v, w in zip((x.a, x.b, x.c), f))
        if rng.random() < .3:
            # blocks that hardly talk to each other
            k = int(rng.integers(0, len(x.a)))
            x.a[k:, :k] *= 2.**-rng.integers(10, 40)
        G = mon.result('build', x.build, rng) if how == 'state' else \
            (x.a.copy(), x.b.copy(), x.c.copy())
    kw = dict(form=form, invert=invert)
    withT = bool(rng.random() < .7)
    mats = bool(rng.random() < .4)
    if withT:
        kw['compute_T'] = True
    if mats:
        kw['output'] = 'matrices'
    key = f'hessenberg:{form}{"i" if invert else ""}:{how}'
    out = mon.result('hessenberg_realization', hessenberg_realization, G,
                     key=key, **kw)
    T = None
    if mats:
        mon.check(isinstance(out, tuple) and len(out) == 3 + withT,
                  key + ':len', f'{len(out)} outputs', **kw)
        A, B, C = map(np.asarray, out[:3])
        T = out[3] if withT else None
        if how == 'transfer' and not A.size:
            raise Skip('no dynamics left')
    else:
        H = out
        if withT:
            mon.check(isinstance(out, tuple) and len(out) == 2,
                      key + ':len', 'two outputs expected')
            H, T = out
        mon.check(type(H) is State, key + ':type', f'{type(H).__name__}')
        if how == 'transfer' and H._isgain:
            raise Skip('no dynamics left')
        A, B, C = H.a, H.b, H.c
        want = (x.dt, x.d if how == 'state' else None)
        if how == 'tuple':
            want = (None, np.zeros(x.shape))
        mon.check(H.SamplingPeriod == want[0], key + ':dt',
                  f'{H.SamplingPeriod} instead of {want[0]}')
        if want[1] is not None:
            mon.close(H.d, want[1], key + ':D', rtol=1e-12, model=x.raw())
    data = dict(model=x.raw(), got_a=A, got_b=B, got_c=C, T=T)
    if how != 'transfer':
        old = (x.a, x.b, x.c)
        mon.check(A.shape == x.a.shape and B.shape == x.b.shape and
                  C.shape == x.c.shape, key + ':shape', '', **data)
        if T is not None:
            similar(mon, key, old, (A, B, C), T, data)
    # the transfer matrix
    poles = np.r_[x.poles(), np.linalg.eigvals(A)]
    pts = f[0]*oracle.points(rng, poles/f[0], 4, x.dt)
    if how == 'transfer' and mats:
        val = oracle.ss_eval(A, B, C, np.zeros(x.shape), pts)
        d = [[n[0]/e[0] if len(n) == len(e) else 0. for n, e in zip(u, v)]
             for u, v in zip(x.num, x.den)]
        want = x.at(pts) - np.array(d)
    else:
        D = np.zeros(x.shape) if mats or how == 'tuple' else H.d
        val = oracle.ss_eval(A, B, C, D, pts)
        want = x.at(pts) if how != 'tuple' and not mats else \
            oracle.ss_eval(x.a, x.b, x.c, np.zeros(x.shape), pts)
    na, nb, nc = map(np.linalg.norm, (A, B, C))
    if how == 'transfer':
        mon.close(val, want, key + ':value', rtol=1e-6, atol=1e-12,
                  scale=np.max(np.abs(want)) + 1e-3*(na + nb + nc), **data)
    else:
        # what rounding errors in A, B, C of relative size eps amount to
        res = max(np.linalg.norm(np.linalg.inv(z*np.eye(len(A)) - A))
                  for z in pts)
        mon.close(val, want, key + ':value', rtol=1e-12,
                  scale=nc*res*nb*(1 + na*res) + np.max(np.abs(want)),
                  atol=0., **data)
    # the pattern, in the order of the plain controllable form
    a, b = (A, B) if form == 'c' else (A.T, C.T)
    if invert:
        a, b = a[::-1, ::-1], b[::-1]
    low = np.tril(a, -2)
    mon.close(low, 0*low, key + ':pattern', rtol=1e-10, scale=na, **data)
    mon.close(b[1:, 0], 0*b[1:, 0], key + ':compressed', rtol=1e-10,
              scale=np.linalg.norm(b), **data)
    mon.nontrivial(x.raw(), str(kw), how,
                   bucket=(how, form, invert, len(A), x.shape, x.dt is None),
                   sample={'form': form, 'invert': invert, 'how': how,
                           'states': len(A), 'shape': x.shape})


def gains(rng, mon):
    x = gen.model(rng, gain=1.)
    G = mon.result('build', x.build, rng)
    H = mon.result('hessenberg_realization', hessenberg_realization, G,
                   key='gain', form=gen.pick(rng, 'co'),
                   invert=bool(rng.random() < .5))
    mon.check(H._isgain and H.shape == x.shape and
              H.SamplingPeriod == x.dt, 'gain:kind', '', model=G)
    pts = np.array([1.5])
    mon.close(oracle.model_eval(H, pts), x.at(pts), 'gain:value', rtol=1e-12,
              atol=1e-14, model=G)
    mon.nontrivial(x.raw(), bucket=('gain', type(x).__name__, x.shape))


WORKLOADS = [Workload('stairs', stairs, 8000),
             Workload('hessen', hessen, 8000),
             Workload('gains', gains, 300)]
