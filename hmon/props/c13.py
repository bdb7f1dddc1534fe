"""Undiscretization."""
import numpy as np
from harold import State, Transfer, discretize, undiscretize

from .. import gen, oracle
from ..core import Skip, Workload
from .c12 import (BACKWARD, FORWARD, REFUSE, TUSTIN, pick_dt, q_of, s_of,
                  z_of)

ID = 'C13'
RULE = ('distinct (model, sampling period, method, parameter) combinations '
        'taken through a round trip between continuous and discrete time')
ASSUMPTIONS = ['models of low order whose poles are mapped to distinct '
               'points away from the singularities of the method, sampled '
               'at least a few times per period']
MAPS = TUSTIN*2 + FORWARD + BACKWARD + ('lft',)*4
HOLDS = ('zoh', 'zoh', 'foh', 'foh')


def spread(p):
    """Smallest distance between different poles."""
    p = np.asarray(p)
    d = np.abs(p[:, None] - p) + 1e9*np.eye(p.size)
    return np.min(d, initial=1e9)


def small(rng, dt):
    """Low order models of both kinds."""
    u = rng.random()
    if u < .5:
        return gen.ss(rng, dt=dt, gain=0., nmax=4, repeat=0.,
                      form=gen.pick(rng, ('diag', 'orth', 'sim', 'tri',
                                          'comp')))
    if u < .75:
        return gen.tf(rng, dt=dt, shp=(1, 1), gain=0., repeat=0.)
    shp = gen.shape(rng, 2)
    n = 1 if min(shp) > 1 else int(rng.integers(1, 3))
    den = gen.lead(rng)*gen.poly(gen.roots(rng, n, dt, repeat=0.))
    ent = [[gen.tf_entry(rng, dt, den=den, zero=.1) for _ in range(shp[1])]
           for _ in range(shp[0])]
    return gen.TF([[e[0] for e in r] for r in ent],
                  [[den for e in r] for r in ent], dt)


def poles_of(x):
    if isinstance(x, gen.SS) or x.shape == (1, 1):
        return x.poles()
    return np.roots(x.den[0][0])


def back(rng, mon):
    """continuous -> discrete -> continuous"""
    x = small(rng, None)
    poles = poles_of(x)
    dt = pick_dt(rng, poles)
    if np.max(np.abs(poles))*dt < .15:
        dt *= 4
    method = gen.pick(rng, MAPS + HOLDS)
    w = 1. if method == 'lft' else \
        gen.unit(rng, None, hi=30 if isinstance(x, gen.SS) else 6)
    x, dt, poles = gen.retimed(x, w), dt/w, poles*w
    q, kw = (None, {}) if method in HOLDS else q_of(rng, method, dt)
    zp = np.exp(poles*dt) if q is None else z_of(q, poles)
    if spread(zp) < .02:
        raise Skip('poles too close in discrete time')
    if q is not None and np.min(np.abs(1 - q[1, 1]*poles)) < .15:
        raise Skip('nearly ill posed')
    if np.min(np.abs(zp)) < .03:
        raise Skip('poles near the origin')
    G = mon.result('build', x.build, rng)
    Gd = mon.result('discretize', discretize, G, dt, method, **kw)
    if Gd._isgain:
        raise Skip('no dynamics left')
    key = f'back:{method}' + (':prewarp' if 'prewarp_at' in kw else '')
    if rng.random() < .5:
        Gc = mon.result('undiscretize', undiscretize, Gd, key=key)
        how = 'recorded'
    else:
        Gc = mon.result('undiscretize', undiscretize, Gd, method, key=key,
                        **kw)
        how = 'named'
    key += f':{how}'
    mon.check(type(Gc) is type(G), key + ':type', 'other representation')
    mon.check(Gc.SamplingSet == 'R' and Gc.SamplingPeriod is None,
              key + ':dt', 'the result is not a continuous model')
    pts = oracle.points(rng, poles, unit=w)
    want = x.at(pts)
    mon.close(oracle.model_eval(Gc, pts), want, key + ':value', rtol=1e-5,
              atol=1e-9, scale=np.max(np.abs(want)), raw=x.raw(),
              period=dt, opts=kw)
    mon.nontrivial(x.raw(), dt, method, how, str(kw),
                   bucket=(type(x).__name__, x.shape, method, bool(kw), how),
                   sample={'method': method, 'dt': dt, 'opts': str(kw),
                           'how': how, 'poles': [str(v) for v in poles]})


def forth(rng, mon):
    """discrete -> continuous -> discrete"""
    dt = gen.some_dt(rng, 1.)
    x = small(rng, dt)
    zp = poles_of(x)
    method = gen.pick(rng, MAPS + HOLDS)
    q, kw = (None, {}) if method in HOLDS else q_of(rng, method, dt)
    if q is None:
        if np.any((np.abs(zp.imag) < .02) & (zp.real < .05)):
            raise Skip('no logarithm')
        if np.min(np.abs(zp - 1)) < .02 and method == 'foh':
            raise Skip('not for this hold')
    else:
        # z with 1/s = 0, whose image is s = infinity
        if q[1, 1]:
            inf = q[0, 0] - q[0, 1]*q[1, 0]/q[1, 1]
            if np.min(np.abs(zp - inf)) < .1:
                raise Skip('poles mapped to infinity')
    if spread(zp) < .02:
        raise Skip('close poles')
    G = mon.result('build', x.build, rng)
    key = f'forth:{method}' + (':prewarp' if 'prewarp_at' in kw else '')
    if rng.random() < .5:
        # what the model records does not matter if the method is named
        old = gen.pick(rng, MAPS + HOLDS + ('lft',)*4)
        G.DiscretizedWith = old
        if old == 'lft':
            G.DiscretizationMatrix = q_of(rng, old, dt)[0]
        elif old in TUSTIN:
            G.PrewarpFrequency = float(rng.uniform(.05, .4))/dt
        key += ':other'
    Gc = mon.result('undiscretize', undiscretize, G, method, key=key, **kw)
    mon.check(Gc.SamplingSet == 'R', key + ':dt', 'result is not continuous')
    mon.check(type(Gc) is type(G), key + ':type', 'other representation')
    if q is not None:
        with np.errstate(divide='ignore', invalid='ignore'):
            sp = s_of(q, zp)
        sp = np.where(np.isfinite(sp), sp, 0.)
        pts = oracle.points(rng, np.r_[sp, [1/q[1, 1]] if q[1, 1] else []])
        want = x.at(z_of(q, pts))
        mon.close(oracle.model_eval(Gc, pts), want, key + ':map', rtol=1e-5,
                  atol=1e-9, scale=np.max(np.abs(want)), raw=x.raw(),
                  opts=kw)
    Gd = mon.result('discretize', discretize, Gc, dt, method, key=key, **kw)
    pts = oracle.points(rng, zp, dt=dt)
    want = x.at(pts)
    mon.close(oracle.model_eval(Gd, pts), want, key + ':value', rtol=1e-5,
              atol=1e-9, scale=np.max(np.abs(want)), raw=x.raw(), opts=kw)
    mon.nontrivial(x.raw(), method, str(kw),
                   bucket=(type(x).__name__, x.shape, method, bool(kw)))


def default(rng, mon):
    """Nothing recorded, nothing named: the documented default is tustin."""
    dt = gen.some_dt(rng, 1.)
    x = small(rng, dt)
    zp = poles_of(x)
    if np.min(np.abs(zp + 1)) < .1 or spread(zp) < .02:
        raise Skip('poles mapped to infinity')
    G = mon.result('build', x.build, rng)
    u = rng.random()
    if u < .5:
        G.DiscretizedWith = '>>'
        q = np.array([[1., dt], [1., 0.]])
        key = 'default:assigned'
    else:
        q = np.array([[1., dt], [1., dt/2]])
        key = 'default'
    Gc = mon.result('undiscretize', undiscretize, G, key=key)
    with np.errstate(divide='ignore', invalid='ignore'):
        sp = s_of(q, zp)
    sp = np.where(np.isfinite(sp), sp, 0.)
    pts = oracle.points(rng, np.r_[sp, [1/q[1, 1]] if q[1, 1] else []])
    want = x.at(z_of(q, pts))
    mon.close(oracle.model_eval(Gc, pts), want, key + ':map', rtol=1e-5,
              atol=1e-9, scale=np.max(np.abs(want)), raw=x.raw())
    mon.nontrivial(x.raw(), key, bucket=(type(x).__name__, x.shape, key))


def gains(rng, mon):
    dt = gen.some_dt(rng, 1.)
    x = gen.tf(rng, dt=dt, gain=1.) if rng.random() < .5 else \
        gen.ss(rng, dt=dt, n=0)
    G = mon.result('build', x.build, rng)
    key = f'gain:{type(x).__name__}'
    kw = {} if rng.random() < .5 else \
        {'method': gen.pick(rng, TUSTIN + FORWARD + BACKWARD + HOLDS)}
    Gc = mon.result('undiscretize', undiscretize, G, key=key, **kw)
    mon.check(type(Gc) is type(G) and Gc.shape == x.shape and Gc._isgain,
              key + ':kind', 'a static gain became something else')
    mon.check(Gc.SamplingSet == 'R', key + ':dt', 'not continuous')
    want = x.at([2.])[0].real
    mon.close(oracle.model_eval(Gc, [2.])[0], want, key + ':value',
              rtol=1e-9, scale=np.max(np.abs(want)))
    mon.nontrivial(x.raw(), str(kw), bucket=('gain', type(x).__name__,
                                             x.shape))


def refused(rng, mon):
    what = gen.pick(rng, ('continuous', 'method', 'prewarp', 'noq', 'badq',
                          'zero', 'negative'))
    dt = .1
    if what == 'continuous':
        x = gen.model(rng, dt=None, gain=.2)
    elif what in ('zero', 'negative'):
        # no pole of a continuous model is mapped to these places
        n = int(rng.integers(1, 4))
        a = np.diag(rng.choice([.25, .5, -.5, .75], n))
        a[-1, -1] = 0.
        if what == 'negative':
            # a simple one; pairs have a real logarithm
            a = np.diag([.25, .5, -.75][-n:])
        m, p = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        x = gen.SS(a, np.round(rng.normal(size=(n, m)), 2),
                   np.round(rng.normal(size=(p, n)), 2), np.zeros((p, m)),
                   dt)
    else:
        x = gen.ss(rng, dt=dt, gain=0.) if rng.random() < .5 else \
            gen.TF([[np.array([2.])]], [[gen.poly(gen.roots(rng, 2, dt))]],
                   dt)
    G = mon.result('build', x.build, rng)
    if what == 'continuous':
        kw = {} if rng.random() < .5 else \
            {'method': gen.pick(rng, TUSTIN + FORWARD + HOLDS)}
    elif what == 'method':
        kw = {'method': gen.pick(rng, ('matched', 'tustan', '', 'forward',
                                       'zohh', '<'))}
    elif what == 'prewarp':
        kw = {'method': gen.pick(rng, TUSTIN),
              'prewarp_at': float(rng.uniform(5.01, 40))}
    elif what == 'zero':
        kw = {'method': gen.pick(rng, ('zoh', 'foh', '<<', 'backward euler'))}
    elif what == 'negative':
        kw = {'method': gen.pick(rng, ('zoh', 'foh'))}
    elif what == 'noq':
        kw = {'method': 'lft'}
    else:
        r, c = gen.pick(rng, ((3, 3), (1, 2), (2, 1), (4, 1), (2, 3)))
        kw = {'method': 'lft', 'q': rng.normal(size=(r, c))}
    mon.rejected('undiscretize', lambda: undiscretize(G, **kw), exc=REFUSE,
                 key=f'refused:{what}')
    mon.nontrivial(what, x.raw(), str(kw), bucket=what)


WORKLOADS = [Workload('back', back, 6000),
             Workload('forth', forth, 6000),
             Workload('default', default, 1500),
             Workload('gains', gains, 1000),
             Workload('refused', refused, 1000)]
