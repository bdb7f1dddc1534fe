"""Division and inversion."""
import operator

import numpy as np

from .. import algebra, gen, oracle
from ..core import Skip, Workload

ID = 'C04'
RULE = ('distinct models (raw data) whose quotient was compared at complex '
        'points, and models without a proper inverse that were refused')

ERRORS = (ValueError, np.linalg.LinAlgError, ZeroDivisionError)


def scalar(rng):
    u = rng.random()
    if u < .3:
        return int(gen.pick(rng, (1, 2, -3, 5, 10)))
    return float(gen.pick(rng, (1., .5, -2., -.1, 4.5)))


def square(rng):
    k = int(rng.integers(1, 4))
    return k, k


def invertible(rng, dt, kind, n):
    """A model with well conditioned feedthrough."""
    if kind in ('ss', 'ssgain'):
        raw = gen.ss(rng, dt=dt, shp=(n, n), nmax=3,
                     gain=1 if kind == 'ssgain' else 0, d='invertible')
        if kind == 'ssgain':
            raw.d = np.round(rng.normal(size=(n, n))*2, 2)
        return raw
    if n == 1:
        if kind == 'tfgain':
            return gen.TF([[np.array([gen.lead(rng)])]],
                          [[np.array([gen.lead(rng)])]], dt, ['gain'])
        return gen.tf(rng, dt=dt, shp=(1, 1), gain=0, maxdeg=4, proper=1.)
    if kind == 'tfgain':
        return gen.tf(rng, dt=dt, shp=(n, n), gain=1)
    raw = gen.tf(rng, dt=dt, shp=(n, n), gain=0, maxdeg=2 if n < 3 else 1,
                 proper=.3)
    for i in range(n):
        d = raw.den[i][i]
        raw.num[i][i] = gen.coeffs(rng, len(d)-1)
    return raw


def feedthrough(raw):
    if isinstance(raw, gen.SS):
        return raw.d
    return np.array([[n[0]/d[0] if len(n) == len(d) else 0.
                      for n, d in zip(rn, rd)]
                     for rn, rd in zip(raw.num, raw.den)])


def inverse_value(raw, pts):
    v = raw.at(pts)
    s = np.linalg.svd(v, compute_uv=False)
    if np.min(s[:, -1]/s[:, 0]) < 1e-3 or np.min(s[:, -1]) < 1e-3:
        raise Skip('inverse badly conditioned at a test point')
    return np.linalg.inv(v)


def usable(raw):
    s = np.linalg.svd(feedthrough(raw), compute_uv=False)
    if s[-1] < .05 or s[-1]/s[0] < .02:
        raise Skip('feedthrough badly conditioned')


def points(rng, raws, dt, k, w=1.):
    poles = np.concatenate([r.poles() for r in raws])
    return oracle.points(rng, poles, k, dt, unit=w)


def scale_down(rng, mon):
    dt = gen.some_dt(rng)
    kind = gen.pick(rng, algebra.KINDS[:4])
    raw = algebra.operand(rng, dt, gen.shape(rng, 3), kind)
    s = scalar(rng)
    G = mon.result('build', raw.build, rng)
    pts = points(rng, [raw], dt, 4)
    want = raw.at(pts)/s
    R = mon.result('truediv', operator.truediv, G, s)
    algebra.judge(mon, f'scale:{kind}', R, raw.shape, dt, want, pts, 0.,
                  x=raw.raw(), by=s)
    mon.nontrivial('s', raw.raw(), s, bucket=('s', kind, raw.shape))


def invert(rng, mon):
    dt = gen.some_dt(rng)
    kind = gen.pick(rng, algebra.KINDS[:4])
    n = square(rng)[0]
    raw = invertible(rng, dt, kind, n)
    usable(raw)
    w = gen.unit(rng, dt, hi=8 if kind == 'tf' and n > 1 else 30)
    raw = gen.retimed(raw, w)
    G = mon.result('build', raw.build, rng)
    pts = points(rng, [raw], dt, 5, w)
    want = inverse_value(raw, pts)
    s = scalar(rng)
    R = mon.result('rtruediv', operator.truediv, s, G)
    algebra.judge(mon, f'inverse:{kind}', R, (n, n), dt, s*want, pts,
                  0., x=raw.raw(), over=s)
    mon.nontrivial('i', raw.raw(), s, bucket=('i', kind, n, dt is None),
                   sample={'kind': kind, 'n': n, 'dt': dt})


def quotient(rng, mon):
    """G/H is G times the inverse of H."""
    dt = gen.some_dt(rng)
    kind = gen.pick(rng, algebra.KINDS[:4])
    n = int(rng.integers(1, 3))
    raw = invertible(rng, dt, kind, n)
    if kind == 'tf' and n > 1:
        raw = invertible(rng, dt, 'ss', n)
    usable(raw)
    k2 = gen.pick(rng, ('ss', 'tf', 'ssgain', 'tfgain'))
    left = algebra.operand(rng, dt, (int(rng.integers(1, 3)), n), k2,
                           kw_tf={'maxdeg': 1})
    w = gen.unit(rng, dt)
    raw, left = gen.retimed(raw, w), gen.retimed(left, w)
    H = mon.result('build', raw.build, rng)
    G = mon.result('build', left.build, rng)
    pts = points(rng, [raw, left], dt, 4, w)
    inv, g = inverse_value(raw, pts), left.at(pts)
    want = g*inv if (1, 1) in (g.shape[1:], inv.shape[1:]) else g @ inv
    R = mon.result('quotient', operator.truediv, G, H)
    algebra.judge(mon, f'quotient:{k2}/{kind}', R, want.shape[1:], dt, want,
                  pts, np.max(np.abs(g))*np.max(np.abs(inv)), rtol=1e-5,
                  x=left.raw(), y=raw.raw())
    mon.nontrivial('q', raw.raw(), left.raw(), bucket=('q', kind, k2, n))


def refuse(rng, mon):
    dt = gen.some_dt(rng)
    kind = gen.pick(rng, algebra.KINDS[:4])
    how = gen.pick(rng, ('nonsquare', 'strictly', 'singular', 'zero'))
    if how == 'nonsquare':
        shp = gen.shape(rng, 3, ('simo', 'miso', 'tall', 'wide'))
        raw = algebra.operand(rng, dt, shp, kind)
    else:
        n = square(rng)[0]
        if how == 'singular':
            n = max(n, 2)
        raw = invertible(rng, dt, kind, n)
        if isinstance(raw, gen.SS):
            if how == 'singular':
                raw.d[-1] = raw.d[0]*gen.lead(rng)
            else:
                raw.d = np.zeros_like(raw.d)
        elif how == 'singular':
            raw.num[-1] = [x*2. for x in raw.num[0]]
            raw.den[-1] = [x.copy() for x in raw.den[0]]
        elif how == 'strictly':
            for i in range(n):
                for j in range(n):
                    k = len(raw.den[i][j]) - 1
                    raw.num[i][j] = (gen.coeffs(rng, int(rng.integers(0, k)))
                                     if k else np.array([0.]))
        else:
            raw.num = [[np.array([0.])]*n for _ in range(n)]
    G = mon.result('build', raw.build, rng)
    mon.rejected('rtruediv', operator.truediv, scalar(rng), G, exc=ERRORS,
                 key=f'refuse:{how}:{kind}')
    mon.nontrivial('r', raw.raw(), bucket=('r', how, kind, raw.shape))
    mon.rejected('truediv', operator.truediv, G, 0, exc=ERRORS,
                 key=f'refuse:by-zero:{kind}')


WORKLOADS = [Workload('scale', scale_down, 4000),
             Workload('invert', invert, 8000),
             Workload('quotient', quotient, 4000),
             Workload('refuse', refuse, 4000)]
