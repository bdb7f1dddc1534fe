"""Discretization."""
import numpy as np
from scipy.linalg import expm
from harold import State, Transfer, discretize

from .. import gen, oracle
from ..core import Skip, Workload

ID = 'C12'
RULE = ('distinct (model, sampling period, method, parameter) combinations '
        'whose discretized transfer matrix was compared with the definition '
        'of the method')
ASSUMPTIONS = ['the mapped poles stay away from infinity (the transformation '
               'is well posed) and the dynamics is not much faster than the '
               'sampling']

TUSTIN = ('bilinear', 'tustin')
FORWARD = ('forward euler', 'forward difference', 'forward rectangular', '>>')
BACKWARD = ('backward euler', 'backward difference', 'backward rectangular',
            '<<')
REFUSE = (ValueError, TypeError, np.linalg.LinAlgError)


def q_of(rng, method, dt):
    """The map 1/s = q22 + q21 q12/(z - q11) of a method, and its options."""
    if method in TUSTIN:
        if rng.random() < .5:
            return np.array([[1., dt], [1., dt/2]]), {}
        # in Hz, below the Nyquist frequency
        f = float(rng.uniform(.02, .9)/(2*dt))
        t = 2*np.tan(np.pi*f*dt)/(2*np.pi*f)
        return np.array([[1., t], [1., t/2]]), {'prewarp_at': f}
    if method in FORWARD:
        return np.array([[1., dt], [1., 0.]]), {}
    if method in BACKWARD:
        return np.array([[1., dt], [1., dt]]), {}
    u = rng.random()
    if u < .5:
        # the family of the docstring
        q = np.array([[1., np.sqrt(dt)],
                      [np.sqrt(dt), dt*float(rng.choice([0, .25, .5, .7, 1]))
                       ]])
    else:
        q = np.array([[rng.uniform(.3, 1.2), rng.uniform(.2, 1.2)],
                      [rng.uniform(.3, 1.5)*dt, rng.uniform(0., .8)*dt]])
        if rng.random() < .2:
            q[1, 1] = 0.
        if rng.random() < .2:
            q[0, 0] = 0.
        if rng.random() < .2:
            q[0, 1] *= -1
        q = np.round(q, 4)
        if not q[0, 1]*q[1, 0]:
            q = np.array([[1., .5], [2*dt, dt/4]])
    arg = q.tolist() if rng.random() < .3 else q.copy()
    return q, {'q': arg}


def s_of(q, z):
    return 1/(q[1, 1] + q[0, 1]*q[1, 0]/(z - q[0, 0]))


def z_of(q, s):
    """inf-free only if 1/s != q22"""
    s = np.asarray(s, complex)
    return q[0, 0] + q[0, 1]*q[1, 0]*s/(1 - q[1, 1]*s)


def cont(rng, **kw):
    """A continuous model that is sampled reasonably."""
    x = gen.model(rng, dt=None, nmax=5, repeat=.08, **kw)
    return x


def pick_dt(rng, poles):
    fast = max(.5, np.max(np.abs(poles), initial=0.))
    dt = float(rng.uniform(.03, 1.2)/fast)
    dig = max(0, 2 - int(np.floor(np.log10(dt))))
    return float(np.round(dt, dig))


def realization(rng, x):
    """Continuous matrices of raw data, entrywise for fractions."""
    if isinstance(x, gen.SS):
        return x.a, x.b, x.c, x.d
    p, m = x.shape
    A, B, C, D = [], [], [], np.zeros((p, m))
    for i in range(p):
        for j in range(m):
            n, d = x.num[i][j], x.den[i][j]
            k = len(d) - 1
            d, n = d/d[0], np.r_[np.zeros(k+1-len(n)), n]/d[0]
            D[i, j] = n[0]
            if k:
                a = np.eye(k, k=1)
                a[-1] = -d[:0:-1]
                b, c = np.zeros((k, m)), np.zeros((p, k))
                b[-1, j] = 1.
                c[i] = (n - n[0]*d)[:0:-1]
                A.append(a), B.append(b), C.append(c)
    N = sum(len(a) for a in A)
    a = np.zeros((N, N))
    r = 0
    for q in A:
        a[r:r+len(q), r:r+len(q)] = q
        r += len(q)
    return a, np.vstack(B), np.hstack(C), D


def common(mon, key, Gd, x, dt, method):
    kind = Transfer if isinstance(x, gen.TF) else State
    mon.check(type(Gd) is kind, key + ':type',
              f'{type(Gd).__name__} returned for a {kind.__name__}')
    mon.check(Gd.SamplingPeriod == dt and Gd.SamplingSet == 'Z', key + ':dt',
              'sampling period is not the requested one',
              got=Gd.SamplingPeriod, want=dt)
    mon.check(Gd.shape == x.shape, key + ':shape', 'shape changed',
              got=Gd.shape, want=x.shape)
    # nothing to report if all dynamics cancelled
    mon.check(Gd._isgain or Gd.DiscretizedWith == method, key + ':method',
              'another method is reported', got=Gd.DiscretizedWith,
              want=method)


def mapped(rng, mon):
    x = cont(rng, gain=0.)
    poles = x.poles()
    dt = pick_dt(rng, poles)
    w = gen.unit(rng, None, hi=30 if isinstance(x, gen.SS) else 6)
    x, dt, poles = gen.retimed(x, w), dt/w, poles*w
    method = gen.pick(rng, TUSTIN*2 + FORWARD + BACKWARD + ('lft',)*4)
    q, kw = q_of(rng, method, dt)
    if poles.size and np.min(np.abs(1 - q[1, 1]*poles)) < .15:
        raise Skip('nearly ill posed')
    G = mon.result('build', x.build, rng)
    Gd = mon.result('discretize', discretize, G, dt, method, **kw)
    key = f'map:{method}' + (':prewarp' if 'prewarp_at' in kw else '')
    common(mon, key, Gd, x, dt, method)
    if Gd._isgain:
        pass
    elif method in TUSTIN:
        mon.check(Gd.PrewarpFrequency == kw.get('prewarp_at', 0.),
                  key + ':frequency', 'prewarp frequency not recorded',
                  got=Gd.PrewarpFrequency, want=kw.get('prewarp_at', 0.))
    elif method == 'lft':
        mon.check(Gd.DiscretizationMatrix is not None and
                  np.array_equal(Gd.DiscretizationMatrix, q), key + ':q',
                  'lft matrix not recorded', got=Gd.DiscretizationMatrix)
    zp = z_of(q, poles)
    pts = oracle.points(rng, np.r_[zp, s_bad(q)], dt=dt)
    want = x.at(s_of(q, pts))
    got = oracle.model_eval(Gd, pts)
    mon.close(got, want, key + ':value', rtol=1e-6, atol=1e-10,
              scale=np.max(np.abs(want)), raw=x.raw(), method=method,
              period=dt, opts=kw)
    mon.nontrivial(x.raw(), dt, method, str(kw),
                   bucket=(type(x).__name__, x.shape, method, bool(kw)),
                   sample={'method': method, 'dt': dt, 'opts': str(kw),
                           'poles': [str(v) for v in poles]})


def s_bad(q):
    """z at which s is infinite."""
    return q[0, 0] - q[0, 1]*q[1, 0]/q[1, 1] if q[1, 1] else np.array([])


def held(rng, mon):
    """zoh and foh against the matrix exponential of the hold circuit."""
    x = cont(rng, gain=0.)
    poles = x.poles()
    dt = pick_dt(rng, poles)
    method = gen.pick(rng, ('zoh', 'zoh', 'foh'))
    w = gen.unit(rng, None, hi=30 if isinstance(x, gen.SS) else 6)
    G = mon.result('build', gen.retimed(x, w).build, rng)
    Gd = mon.result('discretize', discretize, G, dt/w, method)
    key = method
    common(mon, key, Gd, x, dt/w, method)
    a, b, c, d = realization(rng, x)
    n, m = b.shape
    M = np.zeros((n+2*m, n+2*m))
    M[:n, :n], M[:n, n:n+m], M[n:n+m, n+m:] = a*dt, b*dt, np.eye(m)
    E = expm(M)
    phi, g0, g1 = E[:n, :n], E[:n, n:n+m], E[:n, n+m:]
    pts = oracle.points(rng, np.exp(poles*dt), dt=dt)
    want = np.empty((pts.size,) + x.shape, complex)
    for k, z in enumerate(pts):
        # held: u_k;  linear: u_k + (u_k+1 - u_k) t/T
        drive = g0 if method == 'zoh' else g0 + (z-1)*g1
        want[k] = c @ np.linalg.solve(z*np.eye(n) - phi, drive) + d
    mon.close(oracle.model_eval(Gd, pts), want, key + ':value', rtol=1e-6, atol=1e-10,
              scale=np.max(np.abs(want)), raw=x.raw(), method=method,
              period=dt, unit=w)
    mon.nontrivial(x.raw(), dt, method, w,
                   bucket=(type(x).__name__, x.shape, method))


def sampled(rng, mon):
    """zoh, in the time domain: piecewise constant input, exact response."""
    x = gen.ss(rng, dt=None, gain=0., nmax=4, kind='stable')
    dt = pick_dt(rng, x.poles())
    N = int(rng.integers(3, 9))
    u = np.round(rng.normal(size=(N, x.shape[1])), 2)
    Gd = mon.result('discretize', discretize, x.build(rng), dt, 'zoh')
    ad, bd, cd, dd = Gd.matrices
    xd = np.zeros(len(ad))
    xc = np.zeros(x.n)
    got, want = [], []
    # the continuous state through many small exact substeps of the hold
    E = expm(np.block([[x.a, x.b], [np.zeros((x.shape[1], x.n+x.shape[1]))]])
             * (dt/4))
    for k in range(N):
        got.append(cd @ xd + dd @ u[k])
        want.append(x.c @ xc + x.d @ u[k])
        xd = ad @ xd + bd @ u[k]
        for _ in range(4):
            xc = (E @ np.r_[xc, u[k]])[:x.n]
    mon.close(np.array(got), np.array(want), 'zoh:samples', rtol=1e-7,
              scale=max(1., np.max(np.abs(want))), raw=x.raw(), period=dt)
    mon.nontrivial(x.raw(), dt, 'time', bucket=('time', x.shape, x.n))


def gains(rng, mon):
    x = gen.tf(rng, dt=None, gain=1.) if rng.random() < .5 else \
        gen.ss(rng, dt=None, n=0)
    G = mon.result('build', x.build, rng)
    dt = gen.some_dt(rng, 1.)
    method = gen.pick(rng, TUSTIN + FORWARD + BACKWARD + ('zoh', 'foh'))
    want = x.at([2.])[0].real
    key = f'gain:{type(x).__name__}'
    Gd = mon.result('discretize', discretize, G, dt, method, key=key)
    mon.check(type(Gd) is type(G) and Gd.shape == x.shape and Gd._isgain,
              key + ':kind', 'a static gain became something else',
              got=str(type(Gd)), shape=Gd.shape, want=x.shape)
    mon.check(Gd.SamplingPeriod == dt, key + ':dt', 'sampling period',
              got=Gd.SamplingPeriod, want=dt)
    mon.close(oracle.model_eval(Gd, [2.])[0], want, key + ':value',
              rtol=1e-9, scale=np.max(np.abs(want)))
    mon.nontrivial(x.raw(), dt, bucket=('gain', type(x).__name__, x.shape))


def refused(rng, mon):
    what = gen.pick(rng, ('discrete', 'method', 'prewarp', 'noq', 'badq',
                          'type'))
    if what in ('discrete', 'method'):
        x = gen.model(rng, dt=None, gain=.2)
    else:
        x = gen.ss(rng, dt=None, gain=0.) if rng.random() < .5 else \
            gen.TF([[np.array([2.])]], [[gen.poly(gen.roots(rng, 2, None))]],
                   None)
    if what == 'discrete':
        x = gen.model(rng, dt=gen.some_dt(rng, 1.), gain=.2)
    G = mon.result('build', x.build, rng)
    dt = .1
    if what == 'discrete':
        args, kw = (G, dt, gen.pick(rng, TUSTIN + FORWARD + ('zoh',))), {}
    elif what == 'method':
        args, kw = (G, dt, gen.pick(rng, ('matched', 'tustan', '', 'forward',
                                          'zohh', None, '<'))), {}
    elif what == 'prewarp':
        args = (G, dt, gen.pick(rng, TUSTIN))
        kw = {'prewarp_at': float(rng.uniform(5.01, 40))}
    elif what == 'noq':
        args, kw = (G, dt, 'lft'), {}
    elif what == 'badq':
        r, c = gen.pick(rng, ((3, 3), (1, 2), (2, 1), (4, 1), (2, 3)))
        args, kw = (G, dt, 'lft'), {'q': rng.normal(size=(r, c))}
    else:
        args, kw = (gen.pick(rng, (np.eye(2), 3., 'tustin', [1, 2], None)),
                    dt), {}
    mon.rejected('discretize', lambda: discretize(*args, **kw), exc=REFUSE,
                 key=f'refused:{what}')
    mon.nontrivial(what, x.raw(), str(args[1:]), str(kw), bucket=what)


WORKLOADS = [Workload('mapped', mapped, 8000),
             Workload('held', held, 4000),
             Workload('sampled', sampled, 2000),
             Workload('gains', gains, 1500),
             Workload('refused', refused, 1500)]
