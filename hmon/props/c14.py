"""Frequency response."""
import numpy as np
from scipy.linalg import block_diag
from harold import frequency_response

from .. import gen
from ..core import Skip, Workload

ID = 'C14'
RULE = ('distinct (model, grid, units) combinations whose response was '
        'compared with the transfer matrix on the stability boundary')
ASSUMPTIONS = ['grid points numerically on top of a pole are not compared']
UNITS = ('Hz', 'rad/s')
MIXED = {'Hz': ('Hz', 'hz', 'HZ'), 'rad/s': ('rad/s', 'Rad/s', 'RAD/S')}
REFUSE = (ValueError, TypeError)


def reference(x, w):
    """Values K x p x m at the frequencies (rad/s), the size of the terms they
    are made of and the points which are well conditioned."""
    s = 1j*w if x.dt is None else np.exp(1j*w*x.dt)
    want = np.empty((w.size,) + x.shape, complex)
    size = np.empty(w.size)
    good = np.ones(w.size, bool)
    if isinstance(x, gen.SS):
        for k, v in enumerate(s):
            if not x.n:
                want[k], size[k] = x.d, np.max(np.abs(x.d))
                continue
            M = v*np.eye(x.n) - x.a
            if np.linalg.svd(M, compute_uv=False)[-1] <= \
                    1e-6*(abs(v) + np.linalg.norm(x.a)):
                good[k] = False
                continue
            r = np.linalg.inv(M)
            want[k] = x.c @ r @ x.b + x.d
            size[k] = np.linalg.norm(x.c)*np.linalg.norm(r, 2) * \
                np.linalg.norm(x.b) + np.linalg.norm(x.d)
        return want, size, good
    size[:] = 0.
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            n, d = x.num[i][j], x.den[i][j]
            dv = np.polyval(d, s)
            with np.errstate(divide='ignore', invalid='ignore'):
                ill = np.polyval(np.abs(d), np.abs(s))/np.abs(dv)
                want[:, i, j] = np.polyval(n, s)/dv
                size = np.maximum(size, np.polyval(np.abs(n), np.abs(s)) /
                                  np.abs(dv))
            good &= ill < 1e6
    return want, size, good


def compare(mon, key, x, fr, w, **data):
    """fr against the transfer matrix on the grid w (rad/s)."""
    p, m = x.shape
    full = (w.size,) if x.shape == (1, 1) else (p, m, w.size)
    fr = np.asarray(fr)
    mon.check(fr.shape == full, key + ':shape',
              f'response of shape {fr.shape} instead of {full}', **data)
    want, size, good = reference(x, w)
    if not good.any():
        raise Skip('all points near poles')
    got = fr[:, None, None] if x.shape == (1, 1) else np.moveaxis(fr, 2, 0)
    bound = np.broadcast_to((np.maximum(size, 1e-12))[good, None, None],
                            want[good].shape)
    mon.close(got[good], want[good], key + ':value', rtol=1e-7, scale=bound,
              grid=w, raw=x.raw(), **data)
    return int(good.sum())


def user_grid(rng, x):
    n = int(rng.integers(1, 12))
    top = 50. if x.dt is None else np.pi/x.dt
    u = rng.random()
    if u < .4:
        w = np.sort(10**rng.uniform(np.log10(top) - 4, np.log10(top), n))
    elif u < .7:
        w = rng.uniform(0, top, n)
    else:
        w = np.linspace(0, top*.99, n)
    if rng.random() < .2:
        w[0] = 0.
    return np.minimum(w, .999*top if x.dt is not None else np.inf)


def given(rng, mon):
    x = gen.model(rng, gain=.12, nmax=6)
    f = gen.unit(rng, x.dt)
    G = mon.result('build', gen.retimed(x, f).build, rng)
    w = user_grid(rng, x)
    iu, ou = gen.pick(rng, UNITS), gen.pick(rng, UNITS)
    arg = (w/2/np.pi if iu == 'Hz' else w.copy())*f
    keep = arg.copy()
    if rng.random() < .3:
        arg = arg.tolist()
    kw = {'w_unit': iu, 'output_unit': ou}
    if rng.random() < .3:
        kw = {'w_unit': gen.pick(rng, MIXED[iu]),
              'output_unit': gen.pick(rng, MIXED[ou])}
    kind = ('gain' if 'gain' in x.tags else 'dyn') + ':' + type(x).__name__
    key = f'given:{kind}'
    fr, wo = mon.result('frequency_response', frequency_response, G, arg,
                        key=key, **kw)
    mon.check(np.array_equal(arg, keep), key + ':argument',
              'the grid of the caller was changed')
    mon.close(np.asarray(wo)/f, w/2/np.pi if ou == 'Hz' else w,
              key + ':grid', rtol=1e-9, scale=np.max(w) + 1e-3, opts=kw)
    k = compare(mon, key, x, fr, w, opts=kw, unit=f)
    mon.nontrivial(x.raw(), w, str(kw), f,
                   bucket=(type(x).__name__, x.shape, x.dt is None, iu, ou,
                           'gain' in x.tags),
                   sample={'points': k, 'units': [iu, ou], 'shape': x.shape,
                           'dt': x.dt})


def pivots(rng, mon):
    """State models whose resolvent has small leading minors: integrator
    chains, oscillators and sparse integer matrices at low frequencies."""
    dt = gen.some_dt(rng, .4)
    n = int(rng.integers(2, 6))
    u = rng.random()
    if u < .4:
        a = np.diag(rng.integers(1, 4, n-1).astype(float), 1)
        a[-1, :] = -rng.integers(0, 4, n)
    elif u < .7:
        a = rng.integers(-1, 2, (n, n)).astype(float)
    else:
        k = rng.integers(-2, 3, (n, n)).astype(float)
        a = k - k.T
    p, m = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    b = rng.integers(-1, 2, (n, m)).astype(float)
    c = np.zeros((p, n))
    for i in range(p):
        c[i, int(rng.integers(0, n))] = 1.
    if not b.any():
        b[-1, 0] = 1.
    if dt is not None:
        a = a + np.eye(n)*float(rng.integers(0, 2))
    x = gen.SS(a, b, c, np.zeros((p, m)), dt)
    G = mon.result('build', x.build, rng)
    top = 10. if dt is None else np.pi/dt
    w = np.r_[0., 10**rng.uniform(-9, 0, 6)*top]
    fr, wo = mon.result('frequency_response', frequency_response, G, w,
                        w_unit='rad/s', output_unit='rad/s', key='pivots')
    compare(mon, 'pivots', x, fr, w)
    mon.nontrivial(x.raw(), w, bucket=('pivots', n, p, m, dt is None))


def auto(rng, mon):
    x = gen.model(rng, gain=.08, nmax=5)
    G = mon.result('build', x.build, rng)
    ou = gen.pick(rng, UNITS)
    kw = {'output_unit': ou}
    if rng.random() < .3:
        kw['samples'] = int(rng.integers(2, 60))
    if rng.random() < .3:
        # the unit of a grid that is not there
        kw['w_unit'] = gen.pick(rng, UNITS)
    kind = 'gain' if 'gain' in x.tags else type(x).__name__
    key = f'auto:{kind}'
    fr, w = mon.result('frequency_response', frequency_response, G, key=key,
                       **kw)
    w = np.asarray(w)
    if ou == 'Hz':
        w = w*2*np.pi
    mon.check(w.ndim == 1 and w.size > 0 and np.all(np.isfinite(w)) and
              np.all(w > 0), key + ':positive', 'not a positive grid', got=w,
              raw=x.raw())
    mon.check(np.all(np.diff(w) >= 0), key + ':sorted', 'grid is not sorted',
              got=w, raw=x.raw())
    if x.dt is not None:
        mon.check(w[-1] <= np.pi/x.dt*(1 + 1e-9), key + ':nyquist',
                  'grid beyond the Nyquist frequency', got=w[-1],
                  nyquist=np.pi/x.dt)
    if 'samples' in kw and x.dt is None:
        mon.check(w.size >= kw['samples'], key + ':samples',
                  'fewer samples than asked for', got=w.size, want=kw)
    k = compare(mon, key, x, fr, w, opts=kw)
    mon.nontrivial(x.raw(), str(kw), bucket=('auto', type(x).__name__,
                                             x.shape, x.dt is None, ou),
                   sample={'points': k})


def resonant(rng, dt):
    """Sums of modes, most of them lightly damped, on several time scales."""
    shp = gen.shape(rng, 2)
    f = float(10**rng.uniform(-3, 3)) if dt is None else 1/dt
    a, b, c, modes = [], [], [], []
    for _ in range(int(rng.integers(1, 4))):
        w = f*float(10**(rng.uniform(-2, 2) if dt is None else
                         rng.uniform(-2, .3)))
        z = float(10**rng.uniform(-3, 0))
        real = rng.random() < .3
        s = -w if real else complex(-z*w, w*np.sqrt(1 - z*z))
        modes.append(s)
        k = np.exp(s*dt) if dt is not None else s
        u, v = rng.normal(size=(1, shp[1])), rng.normal(size=(shp[0], 1))
        if real:
            a.append(np.array([[np.real(k)]]))
            b.append(u)
            c.append(v)
        else:
            a.append(np.array([[k.real, k.imag], [-k.imag, k.real]]))
            b.append(np.r_[u, rng.normal(size=(1, shp[1]))])
            c.append(np.c_[v, rng.normal(size=(shp[0], 1))])
    a = block_diag(*a)
    d = np.zeros(shp) if rng.random() < .7 else rng.normal(size=shp)
    return gen.SS(a, np.vstack(b), np.hstack(c), d, dt), np.array(modes)


def covers(rng, mon):
    """The automatic grid reaches beyond the modes and does not miss their peaks."""
    dt = gen.some_dt(rng, .4)
    x, modes = resonant(rng, dt)
    if rng.random() < .5:
        q = gen.orth(rng, x.n)
        x.a, x.b, x.c = q @ x.a @ q.T, q @ x.b, x.c @ q.T
    G = mon.result('build', x.build, rng)
    key = 'covers:' + ('continuous' if dt is None else 'discrete')
    kw = {}
    if rng.random() < .3:
        kw['samples'] = int(rng.integers(60, 300))
    w = mon.result('frequency_response', frequency_response, G, key=key,
                   w_unit='rad/s', output_unit='rad/s', **kw)[1]
    w = np.asarray(w)
    data = dict(raw=x.raw(), modes=modes, grid=w, opts=kw)
    lo, hi = np.min(np.abs(modes)), np.max(np.abs(modes))
    mon.check(w[0] < .5*lo, key + ':below',
              f'starts at {w[0]} above the mode at {lo}', **data)
    top = 2*hi if dt is None else min(2*hi, .9*np.pi/dt)
    mon.check(w[-1] > top, key + ':above',
              f'stops at {w[-1]} below {top}', **data)
    for s in modes[modes.imag > 0]:
        if dt is None or s.imag < .99*np.pi/dt:
            mon.check(np.min(np.abs(w - s.imag)) < abs(s.real), key + ':peak',
                      f'no point within the bandwidth of the mode {s}', **data)
    mon.nontrivial(x.raw(), str(kw),
                   bucket=('covers', x.shape, dt is None, len(modes)),
                   sample={'modes': [str(s) for s in modes], 'dt': dt})


def minreal(rng, mon):
    """Nonminimal State models with the minimal realization option."""
    dt = gen.some_dt(rng)
    x = gen.ss(rng, dt=dt, gain=0., nmax=3, repeat=0., sparse=0.,
               form='orth')
    p, m = x.shape
    k = int(rng.integers(1, 3))
    extra = gen.real_blocks(gen.roots(rng, k, dt, 'stable', 0.))
    n = x.n + k
    a, b, c = np.zeros((n, n)), np.zeros((n, m)), np.zeros((p, n))
    a[:x.n, :x.n], a[x.n:, x.n:] = x.a, extra
    b[:x.n], c[:, :x.n] = x.b, x.c
    u = rng.random()
    if u < .4:
        b[x.n:] = gen.matrix(rng, k, m, 0.)
    elif u < .8:
        c[:, x.n:] = gen.matrix(rng, p, k, 0.)
    q = gen.orth(rng, n)
    y = gen.SS(q @ a @ q.T, q @ b, c @ q.T, x.d, dt)
    G = mon.result('build', y.build, rng)
    w = user_grid(rng, y)
    fr, wo = mon.result('frequency_response', frequency_response, G, w,
                        w_unit='rad/s', output_unit='rad/s',
                        use_minreal=True, key='minreal')
    want, size, good = reference(x, w)
    _, size2, good2 = reference(y, w)
    good &= good2
    if not good.any():
        raise Skip('all points near poles')
    full = (w.size,) if x.shape == (1, 1) else (p, m, w.size)
    mon.check(fr.shape == full, 'minreal:shape', 'shape', got=fr.shape)
    got = fr[:, None, None] if x.shape == (1, 1) else np.moveaxis(fr, 2, 0)
    bound = np.broadcast_to(size2[good, None, None], want[good].shape)
    mon.close(got[good], want[good], 'minreal:value', rtol=1e-6, scale=bound,
              raw=y.raw(), grid=w)
    mon.nontrivial(y.raw(), w, bucket=('minreal', x.shape, n, dt is None))


def nyquist(rng, mon):
    """User points beyond the Nyquist frequency are left out, in order."""
    x = gen.model(rng, dt=gen.some_dt(rng, 1.), gain=.1, nmax=4)
    G = mon.result('build', x.build, rng)
    ny = np.pi/x.dt
    w = rng.uniform(0, 2, int(rng.integers(2, 9)))*ny
    w[np.abs(w/ny - 1) < 1e-3] *= .9
    inside = w[w <= ny]
    kw = dict(w_unit='rad/s', output_unit='rad/s')
    if inside.size == 0:
        mon.rejected('frequency_response', lambda: frequency_response(
            G, w, **kw), exc=REFUSE, key='nyquist:none')
    else:
        fr, wo = mon.result('frequency_response', frequency_response, G, w,
                            key='nyquist', **kw)
        mon.close(wo, inside, 'nyquist:grid', rtol=1e-12, scale=ny)
        compare(mon, 'nyquist', x, fr, inside)
    mon.nontrivial(x.raw(), w, bucket=('nyquist', type(x).__name__,
                                       inside.size == 0))


def refused(rng, mon):
    x = gen.model(rng)
    G = mon.result('build', x.build, rng)
    what = gen.pick(rng, ('unit', 'type', 'grid'))
    w = [.01, .02]
    kw = {}
    if what == 'unit':
        kw[gen.pick(rng, ('w_unit', 'output_unit'))] = \
            gen.pick(rng, ('kHz', 'rad', 'rpm', ''))
    elif what == 'type':
        G = gen.pick(rng, (np.eye(2), 3., 'G', None))
    else:
        w = np.full((2, 2), .01)
    mon.rejected('frequency_response', lambda: frequency_response(G, w, **kw),
                 exc=REFUSE, key=f'refused:{what}')
    mon.nontrivial(what, x.raw(), str(kw), bucket=what)


WORKLOADS = [Workload('given', given, 6000),
             Workload('pivots', pivots, 4000),
             Workload('auto', auto, 3000),
             Workload('covers', covers, 2000),
             Workload('minreal', minreal, 2000),
             Workload('nyquist', nyquist, 1000),
             Workload('refused', refused, 500)]
