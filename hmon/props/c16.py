"""Step and impulse responses."""
import numpy as np
from scipy.linalg import block_diag, expm
from harold import simulate_impulse_response, simulate_step_response

from .. import gen
from ..core import Skip, Workload
from .c12 import pick_dt, realization
from .c15 import REFUSE, grow

ID = 'C16'
RULE = ('distinct (model, time grid) combinations whose step or impulse '
        'response was compared, channel by channel, with the exact response')
ASSUMPTIONS = ['the impulse is the documented pulse of unit area, 1/dt during '
               'the first interval',
               'up to twelve of the returned samples are compared, always '
               'including the first and the last']
FUNS = {'step': simulate_step_response, 'impulse': simulate_impulse_response}


def matrices(x):
    if isinstance(x, gen.SS):
        return x.a, x.b, x.c, x.d
    if 'gain' in x.tags or all(len(d) == 1 for r in x.den for d in r):
        return np.zeros((0, 0)), None, None, x.at([1.])[0].real
    return realization(None, x)


def exact(x, kind, ts, idx):
    """Response samples len(idx) x p x m, how much rounding errors made on
    the way may have grown by then, and the size of the first samples."""
    area = 1. if kind == 'step' else 1/ts
    a, b, c, d = matrices(x)
    if not a.size:
        w = np.array([d*(area if kind == 'step' or k == 0 else 0.)
                      for k in idx])
        return w, np.zeros(len(idx)), area*np.linalg.norm(d)
    n, m = b.shape
    M = np.zeros((n+m, n+m))
    if x.dt is None:
        M[:n, :n], M[:n, n:] = a*ts, b*ts
        M = expm(M)
    else:
        M[:n, :n], M[:n, n:], M[n:, n:] = a, b, np.eye(m)
    g = np.linalg.norm(M[:n, n:])
    M[:n, n:] /= g or 1.
    phi, gam = M[:n, :n], M[:n, n:]
    size = g*area*np.linalg.norm(c)
    w, amp = [], []
    for k in idx:
        amp.append((k+1)*size*np.linalg.norm(M) *
                   np.linalg.norm(np.linalg.matrix_power(M, k)))
        if kind == 'step':
            w.append(c @ np.linalg.matrix_power(M, k)[:n, n:]*g + d)
        elif k == 0:
            w.append(d*area)
        else:
            w.append(c @ np.linalg.matrix_power(phi, k-1) @ gam*(g*area))
    return np.array(w), np.array(amp), size + area*np.linalg.norm(d)


def compare(rng, mon, key, x, kind, y, t):
    p, m = x.shape
    N = t.size
    want = (N, p, m) if m > 1 else (N, p)
    y = np.asarray(y)
    mon.check(y.shape == want or (x.shape == (1, 1) and y.shape == (N,)),
              key + ':shape', f'{y.shape} instead of {want}')
    y = y.reshape((N, p, m))
    ts = x.dt or t[1] - t[0]
    idx = sorted({0, 1, 2, N-1, *rng.integers(0, N, 8).tolist()} &
                 set(range(N)))
    w, amp, size = exact(x, kind, ts, idx)
    ok = amp <= 1e10*max(size, np.max(np.abs(w[:3])))
    if not np.any(ok):
        raise Skip('rounding errors grow too much')
    idx, w, amp = np.array(idx)[ok], w[ok], amp[ok]
    mon.close(y[idx], w, key + ':value', rtol=1e-6, atol=1e-9*size,
              scale=np.max(np.abs(w)) + 1e-6*amp[:, None, None] +
              np.zeros(w.shape), raw=x.raw(), index=idx, ts=ts, samples=N)


def given(rng, mon):
    x = gen.model(rng, gain=.12, nmax=5)
    kind = gen.pick(rng, tuple(FUNS))
    N = int(gen.pick(rng, (2, 4, 10, 40)))
    ts = x.dt or pick_dt(rng, x.poles())
    if grow(x, N, ts) > 23:
        raise Skip('grows too much')
    t = ts*np.arange(N)
    if rng.random() < .25:
        t = t + ts*float(gen.pick(rng, (-N, -2, 1, 3, .5, N)))
    f = gen.unit(rng, x.dt, hi=30 if isinstance(x, gen.SS) else 6)
    G = mon.result('build', gen.retimed(x, f).build, rng)
    key = f'given:{kind}:{type(x).__name__}'
    y, to = mon.result(kind, FUNS[kind], G, (t/f).tolist()
                       if rng.random() < .3 else t/f, key=key)
    y, to = np.asarray(y)/(f if kind == 'impulse' else 1.), np.asarray(to)*f
    mon.close(to, t, key + ':time', rtol=1e-9, scale=np.max(np.abs(t)))
    compare(rng, mon, key, x, kind, y, t)
    mon.nontrivial(x.raw(), kind, t, bucket=(kind, type(x).__name__, x.shape,
                                             x.dt is None, N),
                   sample={'kind': kind, 'shape': x.shape, 'N': N})


def wide(rng):
    """Poles on several time scales, or of special classes."""
    dt = gen.some_dt(rng)
    n = int(rng.integers(1, 5))
    k = gen.pick(rng, ('scales', 'negative', 'integrators', 'oscillators',
                       'origin', 'unstable', 'mixed'))
    if dt is None:
        f = float(10**(rng.uniform(-3, 3) if rng.random() < .7 else
                       rng.uniform(-9, 9)))
        if k == 'scales':
            rts = [-float(10**rng.uniform(-2, 2)) for _ in range(n)]
        elif k == 'integrators' or k == 'origin':
            rts = [0.]*min(n, 2)
        elif k == 'oscillators':
            rts = [complex(0, rng.integers(1, 9)) for _ in range(min(n, 2))]
        elif k == 'unstable':
            rts = gen.roots(rng, n, None, 'unstable', 0)
        else:
            rts = gen.roots(rng, n, None)
        rts = [r*f for r in rts]
    else:
        if k == 'negative':
            rts = [-float(rng.integers(1, 28)/16) for _ in range(n)]
        elif k == 'integrators':
            rts = [1.]*min(n, 2)
        elif k == 'origin':
            rts = [0.]*n
        elif k == 'oscillators':
            w = rng.uniform(.1, 3, min(n, 2))
            rts = [complex(np.cos(v), np.sin(v)) for v in w]
        elif k == 'unstable':
            rts = gen.roots(rng, n, dt, 'unstable', 0)
        else:
            rts = gen.roots(rng, n, dt)
        if k == 'scales':
            rts = [1 - float(10**rng.uniform(-3, -.1)) for _ in range(n)]
    a = gen.real_blocks(rts)
    n = len(a)
    if k in ('integrators', 'origin') and n > 1 and rng.random() < .5:
        k, a[0, 1] = 'origin', 1.
    q = gen.orth(rng, n) if rng.random() < .5 and k != 'origin' else \
        np.eye(n)
    p, m = gen.shape(rng, 2)
    x = gen.SS(q @ a @ q.T, q @ gen.matrix(rng, n, m, 0.),
               gen.matrix(rng, p, n, 0.) @ q.T,
               gen.matrix(rng, p, m), dt)
    return k, x


def auto(rng, mon):
    if rng.random() < .5:
        x, k = gen.model(rng, gain=.12, nmax=4), 'any'
    else:
        k, x = wide(rng)
    if x.dt is not None and x.dt < .02 and rng.random() < .7:
        raise Skip('long')
    kind = gen.pick(rng, tuple(FUNS))
    G = mon.result('build', x.build, rng)
    key = f'auto:{kind}:{k}'
    y, t = mon.result(kind, FUNS[kind], G, key=key)
    t = np.asarray(t)
    mon.check(t.ndim == 1 and t.size >= 2 and np.all(np.isfinite(t)) and
              t[0] == 0., key + ':grid', 'no grid that starts at zero',
              got=t[:5], samples=t.size, raw=x.raw())
    ts = t[1] - t[0]
    mon.check(ts > 0, key + ':grid', 'not increasing', got=t[:5])
    mon.close(np.diff(t), np.full(t.size-1, ts), key + ':uniform', rtol=1e-6,
              scale=ts)
    if x.dt is not None:
        mon.close(t, x.dt*np.arange(t.size), key + ':periods', rtol=1e-9,
                  scale=t[-1])
        r = np.max(np.abs(x.poles()), initial=0.)
        if r < 1 - 1e-4 and not (isinstance(x, gen.TF) and
                                 any(not np.any(u) for v in x.num for u in v)):
            mon.check(t.size > 75000 or r**t.size < .02, key + ':horizon',
                      'the slowest mode has not decayed at the end',
                      samples=t.size, slowest=r, raw=x.raw())
    if grow(x, t.size, ts) > 30:
        raise Skip('grows too much')
    compare(rng, mon, key, x, kind, y, t)
    mon.nontrivial(x.raw(), kind, bucket=(kind, k, x.shape, x.dt is None),
                   sample={'kind': kind, 'class': k, 'samples': t.size})


def modal(rng, kind, dt):
    """Stable models with modes on several time scales, all of which matter,
    in coordinates that do not tell."""
    p, m = gen.shape(rng, 2)
    f = float(10**(rng.uniform(-4, 4) if rng.random() < .7 else
                   rng.uniform(-10, 10)))
    a, b, c, modes, size = [], [], [], [], 0.
    for _ in range(int(rng.integers(1, 5))):
        for _ in range(20):
            w = f*float(10**rng.uniform(-2, 2)) if dt is None else \
                float(10**rng.uniform(-3, 0))/dt
            if all(abs(np.log(w/abs(s))) > .5 for s in modes):
                break
        else:
            continue
        z = float(rng.uniform(.2, .95) if rng.random() < .6 else
                  10**rng.uniform(-2.3, -.7))
        s = -w if rng.random() < .5 else complex(-z*w, w*np.sqrt(1 - z*z))
        modes.append(s)
        u, v = rng.normal(size=(1, m)), rng.normal(size=(p, 1))
        u, v = u/np.linalg.norm(u), v/np.linalg.norm(v)
        g = float(rng.uniform(.4, 1.))
        size += g
        k = s if dt is None else np.exp(s*dt)
        if kind == 'step':
            g *= abs(k) if dt is None else abs(1 - k)
        if np.isreal(s):
            a.append(np.array([[k]]))
            b.append(u*g)
            c.append(v)
        else:
            a.append(np.array([[k.real, k.imag], [-k.imag, k.real]]))
            b.append(np.r_[0*u, u*g])
            c.append(np.c_[v, 0*v])
    a, b, c = block_diag(*a), np.vstack(b), np.hstack(c)
    n = len(a)
    u = rng.random()
    t = np.eye(n)
    if u < .3:
        t = gen.orth(rng, n)
    elif u < .6:
        t = t[rng.permutation(n)]
    if u > .45:
        t = t*2.**rng.integers(-8, 9, n)
    ti = np.linalg.inv(t)
    return gen.SS(t @ a @ ti, t @ b, c @ ti, np.zeros((p, m)), dt), \
        np.array(modes), size


def settle(rng, mon):
    """Automatic grids show the whole response."""
    dt = gen.some_dt(rng, .3)
    kind = gen.pick(rng, tuple(FUNS))
    x, modes, size = modal(rng, kind, dt)
    G = mon.result('build', x.build, rng)
    key = f'settle:{kind}:' + ('continuous' if dt is None else 'discrete')
    y, t = mon.result(kind, FUNS[kind], G, key=key)
    t, y = np.asarray(t), np.asarray(y)
    data = dict(raw=x.raw(), modes=modes, samples=t.size, end=t[-1])
    last = y[-1].reshape(x.shape)
    if kind == 'step':
        e = np.eye(x.n) if dt is not None else 0.
        last = last - x.c @ np.linalg.solve(e - x.a, x.b)
    elif dt is not None:
        size /= dt
    if dt is None or t.size < 70000:
        mon.check(np.all(np.abs(last) <= .05*size), key + ':end',
                  f'{np.max(np.abs(last))} away from the final value, size '
                  f'{size}', **data)
    if dt is None and t.size < 9000:
        mon.check((t[1] - t[0])*np.max(np.abs(modes)) < 1., key + ':resolved',
                  'the fastest mode falls between the samples', **data)
    mon.nontrivial(x.raw(), kind, bucket=('settle', kind, x.shape, x.n,
                                          dt is None),
                   sample={'kind': kind, 'modes': [str(s) for s in modes],
                           'samples': t.size})


def refused(rng, mon):
    what = gen.pick(rng, ('uneven', 'decreasing', 'period', 'time2d', 'one',
                          'type'))
    dt = gen.some_dt(rng, 1. if what == 'period' else .5)
    x = gen.model(rng, dt=dt)
    G = mon.result('build', x.build, rng)
    N = int(rng.integers(4, 9))
    ts = dt or float(10**rng.uniform(-10, 0))
    t = ts*np.arange(N)
    if what == 'uneven':
        t[-1] += .3*ts
    elif what == 'decreasing':
        t = t[::-1].copy()
    elif what == 'period':
        t = t*1.3
    elif what == 'time2d':
        t = np.c_[t, t]
    elif what == 'one':
        t = [1.]
    else:
        G = gen.pick(rng, (np.eye(2), 3., None))
    f = FUNS[gen.pick(rng, tuple(FUNS))]
    mon.rejected(f.__name__, lambda: f(G, t), exc=REFUSE,
                 key=f'refused:{what}')
    mon.nontrivial(what, x.raw(), ts, bucket=(what, dt is None))


WORKLOADS = [Workload('given', given, 6000),
             Workload('auto', auto, 3000),
             Workload('settle', settle, 2500),
             Workload('refused', refused, 1500)]
