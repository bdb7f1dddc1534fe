"""Closing feedback loops."""
import numpy as np
from harold import feedback

from .. import algebra, gen, oracle
from ..core import Skip, Violation, Workload

ID = 'C11'
RULE = ('distinct loops (raw data of both paths, sign) whose closed loop was '
        'compared at complex points or refused')
FINDING = 'negative-feedback-loop-feedthrough'


def feedthrough(x):
    """Value at infinity, from the raw data."""
    if isinstance(x, gen.SS):
        return x.d
    if isinstance(x, algebra.Const):
        return x.value
    p, m = x.shape
    out = np.zeros((p, m))
    for i in range(p):
        for j in range(m):
            n, d = np.trim_zeros(x.num[i][j], 'f'), x.den[i][j]
            if len(n) == len(d):
                out[i, j] = n[0]/d[0]
    return out


def closed(g, h, D, N, s, delta_sign):
    """Closed loop values; delta_sign is the sign used in I + sign*N*D.

    With delta_sign == -s this is the loop.  With the other sign it is what
    the listed finding computes instead.
    """
    m = D.shape[1]
    delta = np.eye(m) + delta_sign*(N @ D)
    gs = g - D
    hs = h - N
    left = delta - s*(N @ gs + hs @ g)
    right = delta + s*(N @ D)
    return g @ np.linalg.solve(left, np.broadcast_to(right, left.shape))


def loop(rng, mon):
    dt = gen.some_dt(rng)
    k1, k2 = gen.pick(rng, algebra.KINDS), gen.pick(rng, algebra.KINDS)
    if k1 == k2 == 'const':
        dt = None
    p, m = gen.shape(rng, 3)
    both_tf = not (k1.startswith('ss') or k2.startswith('ss'))
    kw = {'maxdeg': 2 if (p, m) != (1, 1) or both_tf else 3}
    if both_tf and p*m > 1:
        kw['maxdeg'] = 1
    u = rng.random()
    if u < .4:
        kw['proper'] = 0.
        kw['entry_gain'] = 0.
    kss = {'d': 'zero'} if u < .4 else {}
    if rng.random() < .5:
        kw1, ks1 = kw, kss
        kw2, ks2 = {'maxdeg': kw['maxdeg']}, {}
    else:
        kw1, ks1 = {'maxdeg': kw['maxdeg']}, {}
        kw2, ks2 = kw, kss
    x = algebra.operand(rng, dt, (p, m), k1, kw_tf=kw1, kw_ss=ks1)
    y = algebra.operand(rng, dt, (m, p), k2, kw_tf=kw2, kw_ss=ks2)
    negative = bool(rng.random() < .5)
    w = gen.unit(rng, dt)
    x, y = gen.retimed(x, w), gen.retimed(y, w)
    decide(rng, mon, x, y, dt, negative, k1, k2, w)


def decide(rng, mon, x, y, dt, negative, k1, k2, w=1.):
    s = -1. if negative else 1.
    D, N = feedthrough(x), feedthrough(y)
    ND = N @ D
    m = D.shape[1]
    size = 1. + np.linalg.norm(N, 2)*np.linalg.norm(D, 2)
    right = np.linalg.svd(np.eye(m) - s*ND, compute_uv=False)[-1]
    wrong = np.linalg.svd(np.eye(m) + s*ND, compute_uv=False)[-1]
    # the listed finding: with negative feedback I - ND stands where I + ND
    # should be
    affected = negative and np.any(ND)
    used = wrong if affected else right
    if 1e-17 < used < 1e-3*size:
        raise Skip('nearly ill-posed')
    pts = oracle.points(rng, np.concatenate([x.poles(), y.poles()]), 8, dt,
                        unit=w)
    g, h = x.at(pts), y.at(pts)
    if right >= 1e-3*size:
        L = np.eye(m) - s*(h @ g)
        sv = np.linalg.svd(L, compute_uv=False)
        ok = sv[:, -1] > 3e-3*(1 + sv[:, 0])
        want = closed(g[ok], h[ok], D, N, s, -s)
    raw = dict(x=x.raw(), y=y.raw(), negative=negative)
    G = mon.result('build', x.build, rng)
    H = mon.result('build', y.build, rng)
    args = (G, H) if negative and rng.random() < .5 else (G, H, negative)
    key = f'feedback:{k1}/{k2}:{"neg" if negative else "pos"}'
    if affected and used <= 1e-17:
        # refused although possible, or impossible anyway
        try:
            R = mon.call('feedback', feedback, *args)
        except ValueError:
            mon.evals['refused'] += 1
            if right < 1e-3*size:
                return
            mon.finding(FINDING)
        if right < 1e-3*size:
            raise Violation(key + ':ill-posed', 'accepted', {})
    elif used <= 1e-17:
        mon.rejected('feedback', feedback, *args, key=key + ':ill-posed')
        mon.nontrivial('ill', x.raw(), y.raw(), negative,
                       bucket=('ill', k1, k2, D.shape))
        return
    else:
        R = mon.result('feedback', feedback, *args)
    both_tf = not (k1.startswith('ss') or k2.startswith('ss'))
    kind = 'Transfer' if both_tf and k1 + k2 != 'constconst' else 'State'
    mon.check(type(R).__name__ == kind, key + ':kind',
              f'{type(R).__name__} instead of {kind}', **raw)
    if affected:
        L = (np.eye(m) - ND) + (N @ (g - D) + (h - N) @ g)
        sv = np.linalg.svd(L, compute_uv=False)
        okf = sv[:, -1] > 3e-3*(1 + sv[:, 0])
        faulty = closed(g[okf], h[okf], D, N, s, -1.)
        mon.check(R.shape == D.shape and R.SamplingPeriod == dt,
                  key + ':attributes', f'{R.shape} {R.SamplingPeriod}',
                  got=R, **raw)
        mon.evals['feedback'] += 1
        if right >= 1e-3*size and ok.any() and near(R, pts[ok], want):
            mon.nontrivial('loop', x.raw(), y.raw(), negative)
            return
        if okf.any() and not near(R, pts[okf], faulty):
            raise Violation(key + ':response', 'neither the closed loop nor '
                            'the listed finding', {})
        mon.nontrivial('finding', x.raw(), y.raw(), negative)
        mon.finding(FINDING)
    if not ok.any():
        raise Skip('closed loop poles near every test point')
    algebra.judge(mon, key, R, D.shape, dt, want, pts[ok],
                  np.max(np.abs(want)), rtol=1e-5, **raw)
    mon.nontrivial('loop', x.raw(), y.raw(), negative,
                   bucket=(k1, k2, D.shape, dt is None, negative,
                           bool(np.any(ND))),
                   sample={'kinds': [k1, k2], 'shape': D.shape, 'dt': dt,
                           'negative': negative})


def near(R, pts, want):
    val = oracle.model_eval(R, pts)
    with np.errstate(all='ignore'):
        return bool(np.all(np.abs(val - want) <=
                           1e-5*np.max(np.abs(want)) + 1e-8))


def illposed(rng, mon):
    """Loops with I - s N D exactly singular."""
    dt = gen.some_dt(rng)
    m = int(rng.integers(1, 4))
    negative = bool(rng.random() < .5)
    s = -1. if negative else 1.
    # s N D = I on a subspace, with exactly representable entries
    sc = 2.**rng.integers(-3, 4)
    perm = rng.permutation(m)
    D = np.zeros((m, m))
    N = np.zeros((m, m))
    k = int(rng.integers(1, m+1))
    for i in range(m):
        D[perm[i], i] = sc
        N[i, perm[i]] = s/sc if i < k else gen.pick(rng, (0., .5*s/sc))
    kinds = []
    ops = []
    for v, in ((D,), (N,)):
        k1 = gen.pick(rng, ('ss', 'tf', 'ssgain', 'tfgain', 'const'))
        if k1 == 'ss':
            o = gen.ss(rng, dt=dt, shp=(m, m), n=int(rng.integers(1, 4)))
            o.d = v.copy()
        elif k1 == 'ssgain':
            o = gen.ss(rng, dt=dt, shp=(m, m), n=0)
            o.d = v.copy()
        elif k1 == 'tfgain':
            o = gen.TF([[np.array([z]) for z in r] for r in v],
                       [[np.array([1.]) for z in r] for r in v], dt, [])
        elif k1 == 'tf':
            den = gen.poly(gen.roots(rng, 1, dt))
            o = gen.TF([[z*den + np.array([0., 1.]) for z in r] for r in v],
                       [[den.copy() for z in r] for r in v], dt, [])
        else:
            o = algebra.Const(v.copy(), '2d')
        kinds.append(k1)
        ops.append(o)
    if kinds == ['const', 'const']:
        dt = None
    decide(rng, mon, *ops, dt, negative, *kinds)


def tight(rng, mon):
    """Loops close to ill-posed, yet well posed, with exact feedthrough."""
    dt = gen.some_dt(rng)
    k = int(rng.integers(6, 29))
    eps = 2.**-k*gen.pick(rng, (1., -1.))
    m = int(rng.integers(1, 3))
    raw = gen.ss(rng, dt=dt, shp=(m, m), n=int(rng.integers(1, 4)))
    sc = 2.**rng.integers(-2, 3)
    # N D = diag(1 - eps, maybe something else)
    first = int(rng.integers(m))
    other = gen.pick(rng, (1. - eps, -1., .5))
    raw.d = np.diag([(1. - eps if i == first else other)/sc
                     for i in range(m)])
    kind = gen.pick(rng, ('const', 'ssgain', 'tfgain', 'tf', 'ss'))
    if kind == 'ss':
        y = gen.ss(rng, dt=dt, shp=(m, m), n=1)
        y.d = sc*np.eye(m)
    elif kind == 'ssgain':
        y = gen.ss(rng, dt=dt, shp=(m, m), n=0)
        y.d = sc*np.eye(m)
    elif kind == 'const':
        y = algebra.Const(sc*np.eye(m), '2d')
    else:
        den = np.array([1.])
        if kind == 'tf':
            den = gen.poly(gen.roots(rng, 1, dt))
        grid = [[den*sc*(i == j) for j in range(m)] for i in range(m)]
        y = gen.TF([[x if x.any() else np.array([0.]) for x in r]
                    for r in grid],
                   [[den.copy() for _ in r] for r in grid], dt, [])
    pts = oracle.points(rng, np.concatenate([raw.poles(), y.poles()]), 8, dt)
    g, h = raw.at(pts), y.at(pts)
    sv = np.linalg.svd(np.eye(m) - h @ g, compute_uv=False)
    ok = sv[:, -1] > 1e-2*(1 + sv[:, 0])
    if not ok.any():
        raise Skip('closed loop poles near every test point')
    want = closed(g[ok], h[ok], raw.d, feedthrough(y), 1., -1.)
    G = mon.result('build', raw.build, rng)
    H = mon.result('build', y.build, rng)
    key = f'tight:{kind}'
    R = mon.result('feedback', feedback, G, H, False, key=key)
    algebra.judge(mon, key, R, (m, m), dt, want, pts[ok],
                  np.max(np.abs(want)), rtol=1e-4, x=raw.raw(), y=y.raw())
    mon.nontrivial('tight', raw.raw(), y.raw(),
                   bucket=('tight', kind, m, k, dt is None),
                   sample={'kind': kind, 'distance': eps, 'shape': (m, m)})


def unfit(rng, mon):
    """Complex constants and unfit shapes are refused."""
    raw = gen.model(rng, nmax=2, hi=2)
    G = mon.result('build', raw.build, rng)
    p, m = raw.shape
    u = rng.random()
    if u < .3:
        H = np.ones((m, p))*1j
    elif u < .4:
        H = 2. + 1j
    elif u < .5:
        H = 'a'
    elif u < .6:
        H = None
    else:
        H = np.ones((m + 1, p) if rng.random() < .5 else (m, p + 1))
    args = (G, H) if rng.random() < .5 else (H, G)
    mon.rejected('feedback', feedback, *args, bool(rng.random() < .5),
                 exc=(ValueError, TypeError), key='unfit')
    mon.nontrivial('unfit', raw.raw(), repr(H), bucket=('unfit', u // .1))


WORKLOADS = [Workload('loop', loop, 14000),
             Workload('illposed', illposed, 3000, need=.1),
             Workload('tight', tight, 2500),
             Workload('unfit', unfit, 2000)]
