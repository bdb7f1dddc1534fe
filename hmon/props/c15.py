"""Simulation of linear systems."""
import numpy as np
from scipy.linalg import expm
from scipy.signal import lfilter
from harold import simulate_linear_system

from .. import gen
from ..core import Skip, Workload
from .c12 import pick_dt, realization

ID = 'C15'
RULE = ('distinct (model, input, times, initial state) combinations whose '
        'simulated output was compared with the solution')
ASSUMPTIONS = ['the response does not grow by more than about ten orders of '
               'magnitude over the simulated time']
REFUSE = (ValueError, TypeError)


def hold(a, b, dt):
    """Matrices of the held input system."""
    n, m = b.shape
    E = expm(np.block([[a, b], [np.zeros((m, n+m))]])*dt)
    return E[:n, :n], E[:n, n:]


def solve_ss(a, b, c, d, u, x0=None):
    x = np.zeros(len(a)) if x0 is None else np.array(x0, float)
    y = []
    for v in u:
        y.append(c @ x + d @ v)
        x = a @ x + b @ v
    return np.array(y)


def expected(x, u, ts, x0=None):
    """Outputs N x p x m (one slice per input) for zero initial state, and
    the response to the initial state N x p."""
    p, m = x.shape
    N = len(u)
    out = np.zeros((N, p, m))
    free = np.zeros((N, p))
    if isinstance(x, gen.TF) and x.dt is not None:
        for i in range(p):
            for j in range(m):
                n, d = x.num[i][j], x.den[i][j]
                n = np.r_[np.zeros(len(d)-len(n)), n]
                out[:, i, j] = lfilter(n, d, u[:, j])
        return out, free
    if isinstance(x, gen.SS):
        a, b, c, d = x.a, x.b, x.c, x.d
    elif 'gain' in x.tags:
        a, d = np.zeros((0, 0)), x.at([1.])[0].real
    else:
        a, b, c, d = realization(None, x)
    if not a.size:
        return np.einsum('kj,ij->kij', u, d), free
    if x.dt is None:
        a, b = hold(a, b, ts)
    for j in range(m):
        out[:, :, j] = solve_ss(a, b[:, [j]], c, d[:, [j]], u[:, [j]])
    if x0 is not None:
        free = solve_ss(a, b, c, 0*d, 0*u, x0)
    return out, free


def signal(rng, N, m):
    u = rng.random()
    if u < .3:
        return rng.integers(-3, 4, (N, m)).astype(float)
    if u < .5:
        s = np.zeros((N, m))
        s[int(rng.integers(0, N)), int(rng.integers(0, m))] = 1.
        return s
    return np.round(rng.normal(size=(N, m)), 3)


def flat(rng, u):
    """Documented ways to hand in an input."""
    if u.shape[1] == 1 and rng.random() < .7:
        return u.ravel().tolist() if rng.random() < .5 else u.ravel().copy()
    return u.tolist() if rng.random() < .3 else u.copy()


def grow(x, N, ts):
    p = x.poles()
    if not p.size:
        return 0.
    r = np.max(p.real)*ts if x.dt is None else \
        np.log(max(np.max(np.abs(p)), 1e-9))
    return N*max(r, 0.)


def out(mon, key, y, shape, N, per):
    """Output as N x p (x m), SISO results may be flat."""
    p, m = shape
    want = (N, p, m) if per and m > 1 else (N, p)
    y = np.asarray(y)
    ok = y.shape == want or (shape == (1, 1) and y.shape == (N,))
    mon.check(ok, key + ':shape', f'output of shape {y.shape} instead of '
              f'{want}')
    return y.reshape(want)


def simulate(rng, mon):
    x = gen.model(rng, gain=.12, nmax=5)
    N = int(gen.pick(rng, (2, 3, 5, 12, 30)))
    ts = x.dt or pick_dt(rng, x.poles())
    if grow(x, N, ts) > 23:
        raise Skip('grows too much')
    if x.dt is not None and rng.random() < .1:
        N = 1
    p, m = x.shape
    u = signal(rng, N, m)
    f = gen.unit(rng, x.dt, hi=30 if isinstance(x, gen.SS) else 6)
    G = mon.result('build', gen.retimed(x, f).build, rng)
    per = bool(rng.random() < .4)
    kw = {'per_channel': True} if per else {}
    x0 = None
    if isinstance(x, gen.SS) and x.n and rng.random() < .5:
        x0 = np.round(rng.normal(size=x.n), 2)
        kw['x0'] = gen.pick(rng, (x0.tolist(), x0.copy(), x0[:, None]))
        if x.n == 1 and rng.random() < .5:
            kw['x0'] = float(x0[0])
    t = None
    if x.dt is None or (rng.random() < .6 and N > 1):
        t0 = 0. if rng.random() < .7 else float(rng.integers(-2, 9))*ts
        t = (t0 + ts*np.arange(N))/f
        kw['t'] = t.tolist() if rng.random() < .3 else t.copy()
    kind = 'gain' if 'gain' in x.tags else type(x).__name__
    key = f'sim:{kind}' + (':one' if N == 1 else '') + \
        (':x0' if x0 is not None else '')
    y, to = mon.result('simulate_linear_system', simulate_linear_system, G,
                       flat(rng, u), key=key, **kw)
    mon.close(to, ts*np.arange(N) if t is None else t, key + ':time',
              rtol=1e-9, scale=N*ts/f)
    mon.check(not isinstance(kw.get('t'), np.ndarray) or
              not np.shares_memory(to, kw['t']), key + ':alias',
              'the returned time array is not a copy')
    y = out(mon, key, y, x.shape, N, per)
    w, free = expected(x, u, ts, x0)
    scale = np.max(np.abs(w), initial=0) + np.max(np.abs(free), initial=0)
    if per and m > 1:
        # the free response appears in every slice
        want = w + free[:, :, None]
    else:
        want = w.sum(axis=2) + free
    # rounding errors grow along with unstable modes of other channels
    noise = 1e-10 + 1e-14*np.exp(max(0., grow(x, N, ts)))
    mon.close(y, want, key + ':value', rtol=1e-7, atol=noise, scale=scale,
              raw=x.raw(), u=u, ts=ts, x0=x0, per=per,
              unit=f)
    mon.nontrivial(x.raw(), u, per, str(x0), N,
                   bucket=(kind, x.shape, x.dt is None, per,
                           x0 is not None, N),
                   sample={'kind': kind, 'shape': x.shape, 'N': N, 'ts': ts,
                           'per_channel': per, 'x0': x0 is not None})


def refused(rng, mon):
    what = gen.pick(rng, ('channels', 'length', 'uneven', 'decreasing',
                          'period', 'notime', 'x0size', 'x0gain', 'x0tf',
                          'time2d', 'empty', 'type'))
    dt = gen.some_dt(rng)
    if what == 'period':
        dt = gen.some_dt(rng, 1.)
    if what == 'notime':
        dt = None
    if what == 'x0tf':
        x = gen.tf(rng, dt=dt, gain=0.)
    elif what == 'x0gain':
        x = gen.ss(rng, dt=dt, n=0)
    elif what == 'x0size':
        x = gen.ss(rng, dt=dt, gain=0.)
    else:
        x = gen.model(rng, dt=dt)
    G = mon.result('build', x.build, rng)
    N, m = int(rng.integers(4, 9)), x.shape[1]
    ts = dt or float(10**rng.uniform(-10, 0))
    u, t, kw = rng.normal(size=(N, m)), ts*np.arange(N), {}
    if what == 'channels':
        u = rng.normal(size=(N, m+1))
    elif what == 'length':
        u = rng.normal(size=(N+1, m))
    elif what == 'uneven':
        t[-1] += ts*.3
    elif what == 'decreasing':
        t = t[::-1]
    elif what == 'period':
        t = t*1.3
    elif what == 'notime':
        t = None
    elif what.startswith('x0'):
        kw['x0'] = np.ones((x.n if isinstance(x, gen.SS) else 2) + 1)
    elif what == 'time2d':
        t = np.c_[t, t]
    elif what == 'empty':
        u, t = [], None if dt else t
    else:
        G = gen.pick(rng, (np.eye(2), 3., None))
    mon.rejected('simulate_linear_system', lambda: simulate_linear_system(
        G, u, t, **kw), exc=REFUSE, key=f'refused:{what}')
    mon.nontrivial(what, x.raw(), ts, bucket=(what, dt is None))


WORKLOADS = [Workload('simulate', simulate, 12000),
             Workload('refused', refused, 3000)]
