"""Distance to the nearest pair that loses rank."""
import numpy as np
from harold import cancellation_distance
from scipy.optimize import minimize

from .. import gen
from ..core import Skip, Workload
from .c21 import planted

ID = 'C24'
RULE = ('distinct pairs whose bounds were compared with the smallest singular '
        'value at the returned point and with the smallest one found by an '
        'independent search over the complex plane')
ASSUMPTIONS = ['the search need not find the true minimum: the lower bound '
               'is only refuted by pairs it finds',
               'pairs that already cancel do so at eigenvalues which are not '
               'too sensitive']


def smin(f, g, p):
    return np.linalg.svd(np.hstack([f - p*np.eye(len(f)), g]),
                         compute_uv=False)[-1]


def search(rng, f, g):
    """An attained value, as small as a modest search gets."""
    n, m = g.shape
    pts = list(np.linalg.eigvals(f))
    for _ in range(6):
        c = np.linalg.qr(rng.standard_normal((n+m, m)))[0]
        pts.extend(np.linalg.eigvals(np.hstack([np.hstack([f, g]).T, c])))
    pts = [p for p in pts if np.isfinite(p)]
    val = [smin(f, g, p) for p in pts]
    best = min(val)
    for i in np.argsort(val)[:2]:
        p = pts[i]
        h = 1e-2*(abs(p) + np.linalg.norm(f) + 1e-3)
        r = minimize(lambda v: smin(f, g, complex(*v)), [p.real, p.imag],
                     method='Nelder-Mead', options=dict(
                         maxfev=80, initial_simplex=[
                             [p.real, p.imag], [p.real + h, p.imag],
                             [p.real, p.imag + h]]))
        best = min(best, r.fun)
    return best


def bounds(mon, key, f, g):
    out = mon.result('cancellation_distance', cancellation_distance,
                     f.copy(), g.copy(), key=key)
    mon.check(isinstance(out, tuple) and len(out) == 5, key + ':len',
              'five values expected')
    up2, up1, low, p, rad = out
    data = dict(f=f, g=g, upper2=up2, upper1=up1, lower0=low, point=str(p),
                radius=rad)
    mon.check(all(np.isfinite(v) for v in (up2, up1, low, p)),
              key + ':finite', '', **data)
    s = np.linalg.norm(np.hstack([f, g]), 2)
    eps = 1e-12*s
    mon.check(0 <= low <= up2*(1 + 1e-9) + eps and
              up2 <= up1*(1 + 1e-7) + eps, key + ':order',
              f'{low}, {up2}, {up1}', **data)
    mon.check(not rad < 0, key + ':radius', f'{rad}', **data)
    mon.close(up2, smin(f, g, p), key + ':attained', rtol=1e-8, atol=eps,
              **data)
    return up2, low, p, s, data


def pairs(rng, mon):
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    u = rng.random()
    if u < .4:
        f, g = rng.standard_normal((n, n)), rng.standard_normal((n, m))
    elif u < .7:
        x = gen.ss(rng, n=n, shp=(1, m))
        f, g = x.a, x.b
    else:
        f = rng.integers(-3, 4, (n, n)) * 1.
        g = rng.integers(-1, 2, (n, m)) * 1.
    # weakly connected inputs and states
    if rng.random() < .6:
        g = g*10.**rng.integers(-4, 1)*10.**rng.integers(-4, 1, (n, 1))
    if rng.random() < .3:
        f = f*2.**rng.integers(-6, 7)
    up2, low, p, s, data = bounds(mon, 'pair', f, g)
    d = search(rng, f, g)
    mon.check(low <= d*(1 + 1e-6) + 1e-12*s, 'pair:lower',
              f'distance is at most {d} but the lower bound is {low}',
              found=d, **data)
    mon.nontrivial(f, g, bucket=('pair', n, m, int(np.log10(d/(s + 1e-99) + 1e-16))),
                   sample={'size': [n, m], 'bounds': [float(low), float(up2)],
                           'found': float(d)})


def cancel(rng, mon):
    x, *_ = planted(rng, gen.some_dt(rng))
    f, g = (x.a, x.b) if rng.random() < .5 else (x.a.T, x.c.T)
    n = len(f)
    # the modes that really cancel
    e, v = np.linalg.eig(f.T)
    if np.linalg.cond(v) > 1e3:
        raise Skip('sensitive eigenvalues')
    gone = [p for p in e if smin(f, g, p) < 1e-11]
    if not gone:
        raise Skip('nothing cancels')
    up2, low, p, s, data = bounds(mon, 'cancel', f, g)
    mon.check(up2 <= 1e-7*(1 + s), 'cancel:zero', f'{up2} for a pair that '
              'already cancels', modes=str(gone), **data)
    dist = min(abs(p - v) for v in gone)
    mon.check(dist <= 1e-5*(1 + s), 'cancel:mode', f'{p} is not one of the '
              f'modes {gone}', **data)
    mon.nontrivial(f, g, bucket=('cancel', n, g.shape[1], len(gone)),
                   sample={'size': list(g.shape), 'cancelled': len(gone),
                           'upper': float(up2)})


def refused(rng, mon):
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    k = int(rng.integers(1, 3))
    if rng.random() < .5:
        f, g = rng.standard_normal((n, n + k)), rng.standard_normal((n, m))
    else:
        f, g = rng.standard_normal((n, n)), rng.standard_normal((n + k, m))
    mon.rejected('cancellation_distance', cancellation_distance, f, g,
                 exc=ValueError, key='shapes')
    mon.nontrivial(f, g, bucket=('refused', n, m, k))


WORKLOADS = [Workload('pairs', pairs, 12000),
             Workload('cancel', cancel, 4000),
             Workload('refused', refused, 200)]
