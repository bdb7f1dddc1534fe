"""H2 and Hinf norms."""
import numpy as np
from scipy.linalg import expm
from scipy.optimize import minimize_scalar
from harold import system_norm

from .. import gen, oracle
from ..core import Skip, Workload

ID = 'C20'
RULE = ('distinct (model, norm) pairs whose returned norm was compared with '
        'the impulse response energy or the sampled and refined peak gain')
ASSUMPTIONS = ['poles keep a distance from the stability boundary',
               'the peak gain is located on a grid adapted to the poles and '
               'refined locally; tolerance 1e-5 relative']


def realize(x):
    """State matrices of the raw model; a transfer matrix entry by entry."""
    if isinstance(x, gen.SS):
        return x.a, x.b, x.c, x.d
    p, m = x.shape
    A, B, C = [], [], []
    D = np.zeros((p, m))
    for i in range(p):
        for j in range(m):
            den = x.den[i][j]/x.den[i][j][0]
            n = len(den)-1
            num = np.zeros(n+1)
            num[n+1-len(x.num[i][j]):] = x.num[i][j]/x.den[i][j][0]
            D[i, j] = num[0]
            if n == 0:
                continue
            a = np.eye(n, k=1)
            a[-1] = -den[:0:-1]
            b, c = np.zeros((n, m)), np.zeros((p, n))
            b[-1, j] = 1.
            c[i] = (num[1:] - num[0]*den[1:])[::-1]
            A.append(a), B.append(b), C.append(c)
    n = sum(map(len, A))
    a = np.zeros((n, n))
    k = 0
    for v in A:
        a[k:k+len(v), k:k+len(v)] = v
        k += len(v)
    return (a, np.vstack(B) if n else np.zeros((0, m)),
            np.hstack(C) if n else np.zeros((p, 0)), D)


def gramian(a, b, dt):
    """Doubling; the continuous one from exact integrals over one step."""
    n = len(a)
    if dt is None:
        h = 1./max(1e-12, np.linalg.norm(a, 2))
        e = expm(h*np.block([[-a, b @ b.T], [np.zeros((n, n)), a.T]]))
        f = e[n:, n:].T
        q = f @ e[:n, n:]
    else:
        f, q = a, b @ b.T
    for _ in range(80):
        q = q + f @ q @ f.T
        f = f @ f
        if not np.any(np.abs(f) > 1e-30):
            return q
    raise Skip('slow decay')


def h2(x):
    a, b, c, d = realize(x)
    if x.dt is None and np.any(d):
        return np.inf
    g = gramian(a, b, x.dt) if len(a) else np.zeros((0, 0))
    return np.sqrt(max(0., np.trace(c @ g @ c.T)) + np.sum(d**2))


def peak(x):
    """Largest singular value over the boundary, from above-fine sampling."""
    a, b, c, d = realize(x)
    poles = x.poles()
    if x.dt is None:
        mag = np.abs(poles[poles != 0]) if poles.size else np.array([1.])
        lo, hi = np.min(mag), np.max(mag)
        w = [np.r_[0., np.geomspace(lo*1e-3, hi*1e4, 400)]]
        for p in poles:
            w.append(np.abs(p.imag + np.abs(p.real)*np.linspace(-4, 4, 41)))
        w = np.unique(np.concatenate(w))
        at = (lambda v: 1j*np.atleast_1d(v))
        tail = np.linalg.norm(d, 2) if d.size else 0.
    else:
        w = [np.linspace(0, np.pi, 300)]
        for p in poles:
            th, r = np.abs(np.angle(p)), 1 - np.abs(p)
            w.append(np.clip(th + r*np.linspace(-4, 4, 41), 0, np.pi))
        w = np.unique(np.concatenate(w))
        at = (lambda v: np.exp(1j*np.atleast_1d(v)))
        tail = 0.

    def sig(v):
        return np.linalg.norm(oracle.ss_eval(a, b, c, d, at(v))
                              if isinstance(x, gen.SS) else x.at(at(v)),
                              2, axis=(1, 2))
    # conjugate poles give pairs of points a rounding error apart
    w = w[np.r_[True, np.diff(w) > 1e-9*w[1:]]]
    s = sig(w)
    best = max(tail, float(np.max(s)))
    inner = np.r_[-np.inf, s, -np.inf]
    tops = np.flatnonzero((inner[1:-1] >= inner[2:]) &
                          (inner[1:-1] >= inner[:-2]))
    tops = tops[np.argsort(s[tops])[::-1][:6]]
    for k in tops:
        l, r = w[max(0, k-1)], w[min(len(w)-1, k+1)]
        if s[k] > .8*best and r > l:
            o = minimize_scalar(lambda v: -sig(v)[0], bounds=(l, r),
                                method='bounded',
                                options={'xatol': 1e-7*(r-l)})
            best = max(best, -float(o.fun))
    return best


def scaled(rng, x):
    """The same model on another time scale."""
    if x.dt is not None or 'gain' in x.tags:
        return x
    far = isinstance(x, gen.SS) and rng.random() < .3
    k = 10.**(rng.integers(-9, 10) if far else rng.integers(-2, 4))
    if isinstance(x, gen.SS):
        return gen.SS(x.a*k, x.b*k, x.c, x.d, None, x.tags + ['scaled'])
    f = (lambda c: c*k**np.arange(len(c)))
    # s -> s/k keeps the values; common powers of k are left in
    n, d = [], []
    for rn, rd in zip(x.num, x.den):
        n.append([]), d.append([])
        for u, v in zip(rn, rd):
            n[-1].append(f(u)*k**(len(v) - len(u)))
            d[-1].append(f(v))
    return gen.TF(n, d, None, x.tags + ['scaled'])


def stable_model(rng, p, h2_finite):
    dt = gen.some_dt(rng)
    shp = gen.shape(rng)
    if rng.random() < .5:
        x = gen.tf(rng, dt=dt, shp=shp, kind='stable', gain=.08,
                   proper=0. if h2_finite else .4,
                   entry_gain=0. if h2_finite else .12)
    else:
        x = gen.ss(rng, dt=dt, shp=shp, kind='stable', gain=.08, nmax=6,
                   d='zero' if h2_finite else None)
    return x


def light(rng, dt):
    """A lightly damped resonance, alone or among others."""
    k = int(rng.integers(1, 4))
    z = 2.**-rng.integers(2, 11)
    rts = []
    for _ in range(k):
        wn = rng.integers(1, 33)/4 if dt is None else rng.integers(1, 12)/4
        zz = z if rng.random() < .6 else .25
        if dt is None:
            rts.append(complex(-zz*wn, wn))
        else:
            rts.append((1-zz/2)*np.exp(1j*wn))
    if rng.random() < .4:
        rts.append(gen.real_root(rng, dt, 'stable'))
    a = gen.real_blocks(rts)
    n = len(a)
    q = gen.orth(rng, n)
    p, m = gen.shape(rng)
    d = np.zeros((p, m)) if rng.random() < .5 else gen.matrix(rng, p, m)
    return gen.SS(q @ a @ q.T, gen.matrix(rng, n, m), gen.matrix(rng, p, n),
                  d, dt, ['light'])


def margin(x):
    p = x.poles()
    if not p.size:
        return True
    if x.dt is None:
        return np.max(p.real) < -1e-5*np.max(np.abs(p))
    return np.max(np.abs(p)) < 1 - 1e-5


def allpass(rng, dt):
    """Constant gain over the whole boundary."""
    rts = gen.roots(rng, int(rng.integers(1, 4)), dt, 'stable', 0.)
    den = gen.poly(rts)
    num = den*(-1.)**np.arange(len(den)) if dt is None else den[::-1]
    num = np.trim_zeros(num, 'f')
    k = gen.lead(rng)
    return gen.TF([[num*k]], [[den]], dt, ['allpass'])


def tail_peak(rng, dt):
    """The peak is at the end of the axis: zero frequency, infinity or the
    Nyquist frequency."""
    p, m = gen.shape(rng)
    k = int(rng.integers(1, 4))
    if dt is None:
        r = -rng.integers(1, 17, k)/4
    else:
        r = rng.integers(1, 15, k)/16*gen.pick(rng, (1, -1))
    c = np.abs(gen.matrix(rng, p, k, 0.)) + .25
    b = np.abs(gen.matrix(rng, k, m, 0.)) + .25
    d = np.abs(gen.matrix(rng, p, m))
    if dt is None and rng.random() < .5:
        c = -c
        d = d + np.abs(c @ (b/r[:, None]*-1))*1.5
    elif dt is not None and r[0] < 0:
        c, d = -c, d
    return gen.SS(np.diag(r), b, c, d, dt, ['tail'])


def hinf(rng, mon):
    u = rng.random()
    dt = gen.some_dt(rng)
    if u < .5:
        x = stable_model(rng, np.inf, False)
    elif u < .75:
        x = light(rng, dt)
    elif u < .85:
        x = allpass(rng, dt)
    else:
        x = tail_peak(rng, dt)
    if rng.random() < .2:
        x = scaled(rng, x)
    if not margin(x):
        raise Skip('too close to the boundary')
    want = peak(x)
    G = mon.result('build', x.build, rng)
    key = 'hinf:' + ('c' if x.dt is None else 'd')
    if G._isgain:
        key += ':gain'
    got = mon.result('system_norm', system_norm, G,
                     *((np.inf,) if rng.random() < .3 else ()), key=key)
    mon.check(np.ndim(got) == 0 and np.isrealobj(got), key + ':type',
              f'{type(got)}', model=G)
    mon.close(float(got), want, key, rtol=1e-5, atol=1e-12, model=G)
    mon.nontrivial(x.raw(), 'inf', bucket=('inf', type(x).__name__, x.shape,
                                           x.dt is None, x.tags[-1]),
                   sample={'norm': 'inf', 'model': type(x).__name__,
                           'shape': x.shape, 'dt': x.dt, 'value': want})


def energy(rng, mon):
    u = rng.random()
    if u < .75:
        x = stable_model(rng, 2, rng.random() < .8)
    else:
        x = light(rng, gen.some_dt(rng))
    if rng.random() < .2:
        x = scaled(rng, x)
    if not margin(x):
        raise Skip('too close to the boundary')
    want = h2(x)
    d = realize(x)[3]
    if x.dt is None and d.any() and np.max(np.abs(d)) < 1e-3:
        raise Skip('tiny feedthrough')
    G = mon.result('build', x.build, rng)
    key = 'h2:' + ('c' if x.dt is None else 'd')
    if G._isgain:
        key += ':gain'
    got = mon.result('system_norm', system_norm, G, 2, key=key)
    mon.check(np.ndim(got) == 0 and np.isrealobj(got), key + ':type',
              f'{type(got)}', model=G)
    if np.isinf(want):
        mon.check(np.isposinf(got), key + ':feedthrough',
                  f'returned {got}, not inf', model=G)
    else:
        # the companion form of a fast transfer matrix is badly scaled
        fast = x.tags[-1] == 'scaled' and isinstance(x, gen.TF)
        # rounding errors show up as square roots
        size = 1e-6*np.linalg.norm(x.b)*np.linalg.norm(x.c) \
            if isinstance(x, gen.SS) else 0.
        mon.close(float(got), want, key, rtol=1e-4 if fast else 1e-6,
                  atol=1e-12 + size, model=G)
    mon.nontrivial(x.raw(), '2', bucket=('2', type(x).__name__, x.shape,
                                         x.dt is None, x.tags[-1]),
                   sample={'norm': 2, 'model': type(x).__name__,
                           'shape': x.shape, 'dt': x.dt, 'value': want})


def unstable(rng, mon):
    dt = gen.some_dt(rng)
    x = gen.model(rng, dt=dt, kind=gen.pick(rng, ('unstable', 'any')),
                  gain=0., repeat=0.)
    p = x.poles()
    lim = np.max(p.real) if dt is None else np.max(np.abs(p)) - 1
    if not lim > .01:
        raise Skip('stable')
    if isinstance(x, gen.TF):
        # the unstable factors must be there after the conversion
        for rn, rd in zip(x.num, x.den):
            for u, v in zip(rn, rd):
                if not np.any(u):
                    u[-1] = 1.
                if len(u) > 1 and len(v) > 1 and np.min(np.abs(
                        np.roots(u)[:, None] - np.roots(v)),
                        initial=1.) < 1e-3:
                    raise Skip('cancellation')
    G = mon.result('build', x.build, rng)
    n = gen.pick(rng, (2, np.inf))
    got = mon.result('system_norm', system_norm, G, n, key='unstable')
    mon.check(np.isposinf(got), 'unstable', f'{n}-norm is {got}', model=G)
    mon.nontrivial(x.raw(), n, bucket=('unstable', n, type(x).__name__,
                                       x.shape, dt is None))


def refused(rng, mon):
    x = gen.model(rng, kind='stable')
    G = mon.result('build', x.build, rng)
    if rng.random() < .3:
        bad = gen.pick(rng, (1., 'x', None, [1, 2], np.eye(2)))
        mon.rejected('system_norm', system_norm, bad, exc=(ValueError,),
                     key='refused:model')
        mon.nontrivial(str(bad))
        return
    p = gen.pick(rng, (1, 3, 0, -2, 2.5, 'inf', 'fro', None, -np.inf, 2j))
    mon.rejected('system_norm', system_norm, G, p, key='refused:norm')
    mon.nontrivial(x.raw(), str(p), bucket=('refused', str(p)))


WORKLOADS = [Workload('hinf', hinf, 2500),
             Workload('energy', energy, 4000),
             Workload('unstable', unstable, 1000),
             Workload('refused', refused, 300)]
