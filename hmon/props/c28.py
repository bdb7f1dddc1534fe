"""DC gains."""
import numpy as np
from harold import (State, Transfer, simulate_step_response,
                    state_to_transfer, transfer_to_state)

from .. import algebra, gen
from ..core import Skip, Workload

ID = 'C28'
RULE = ('distinct models whose dcgain was compared entry by entry with the '
        'value at zero frequency known from the planted poles and zeros')
ASSUMPTIONS = ['poles and zeros at zero frequency are exact in the data the '
               'models are built from']


def entry(rng, dt, zero=.1, gain=.1, maxdeg=3, monic=False):
    """(num, den, value) with planted factors at zero frequency."""
    u = rng.random()
    if u < zero:
        return np.array([0.]), np.array([1.]), 0.
    if u < zero + gain:
        k = gen.lead(rng)
        return np.array([k]), np.array([1.]), k
    e = 0. if dt is None else 1.
    deg = int(rng.integers(1, maxdeg+1))
    kind = gen.pick(rng, ('stable', 'unstable'))
    pd = [r for r in gen.roots(rng, deg, dt, kind) if r != e]
    nz = [r for r in gen.roots(rng, int(rng.integers(0, deg)), dt, kind)
          if r != e]
    if len(gen.expand(nz)) > len(gen.expand(pd)):
        nz = []
    # integrators in numerator and denominator
    i, k = gen.pick(rng, ((0, 0), (0, 0), (0, 1), (1, 1), (1, 0), (0, 2),
                          (1, 2), (2, 2)))
    if len(gen.expand(nz)) + i > len(gen.expand(pd)) + k:
        i = k
    g, f = gen.lead(rng), 1. if monic else gen.lead(rng)
    num = g*gen.poly(nz + [e]*i)
    den = f*gen.poly(pd + [e]*k)
    if k > i:
        v = np.inf
    elif i > k:
        v = 0.
    else:
        v = g/f*(np.prod(e - gen.expand(nz)) /
                 np.prod(e - gen.expand(pd))).real
    return num, den, v


def compare(mon, key, G, want, atol=0, **data):
    got = np.asarray(mon.result('dcgain', lambda: G.dcgain,
                                key=f'{key}:failed'))
    mon.check(got.size == want.size and (got.ndim < 2 or
                                         got.shape == want.shape),
              f'{key}:shape', f'{got.shape} instead of {want.shape}',
              model=G, **data)
    got = got.reshape(want.shape)
    mon.check(not np.iscomplexobj(got), f'{key}:real', 'complex value',
              model=G, **data)
    inf = np.isinf(want)
    mon.check(bool(np.all(np.isinf(got) == inf)), f'{key}:infinite',
              'infinite at other entries', model=G, value=got, wanted=want,
              **data)
    mon.close(np.where(inf, 0, got), np.where(inf, 0, want), f'{key}:value',
              rtol=1e-7, atol=atol + 1e-9*(1 + np.max(np.abs(want[~inf]),
                                                      initial=0)),
              model=G, **data)


def grid(rng, dt, shp, maxdeg=3, monic=False):
    es = [[entry(rng, dt, maxdeg=maxdeg, monic=monic) for _ in range(shp[1])]
          for _ in range(shp[0])]
    num, den = ([[e[k] for e in r] for r in es] for k in (0, 1))
    return num, den, np.array([[e[2] for e in r] for r in es])


def transfer(rng, mon):
    dt = gen.some_dt(rng)
    shp = gen.shape(rng, 3)
    num, den, want = grid(rng, dt, shp)
    s = 1.
    if rng.random() < .3:
        # changes the unit of the gain only
        s = float(2.**rng.integers(-60, 61))
        if rng.random() < .5:
            num = [[s*x for x in r] for r in num]
            want = want*s
        else:
            num = [[s*x for x in r] for r in num]
            den = [[s*x for x in r] for r in den]
    G = Transfer(num, den, dt=dt)
    # rounding in a numerator that vanishes
    big = [abs(n).sum()/v for r, t in zip(num, den) for n, d in zip(r, t)
           for v in [abs(d.sum() if dt else d[-1])] if v > 1e-9*abs(d).sum()]
    compare(mon, 'Transfer', G, want, 1e-12*max(big, default=0))
    k = 'siso' if shp == (1, 1) else 'mimo'
    mon.nontrivial('tf', num, den, dt, bucket=f'{k}:{dt is None}:'
                   f'{np.isinf(want).any()}:{s != 1}')


def companion(num, den):
    """An exact realization of one entry with a monic denominator."""
    n = len(den)-1
    num = np.r_[np.zeros(n+1-len(num)), num]
    d = num[0]
    a = np.eye(n, k=1)
    if n:
        a[-1] = -den[:0:-1]
    b = np.zeros((n, 1))
    if n:
        b[-1] = 1.
    c = (num - d*den)[:0:-1][None, :]
    return a, b, c, d


def unimodular(rng, n):
    """An integer matrix with an integer inverse."""
    t, ti = np.eye(n), np.eye(n)
    for _ in range(n):
        i, j = rng.permutation(n)[:2]
        k = float(gen.pick(rng, (-1, 1, 2)))
        t[i] += k*t[j]
        ti[:, j] -= k*ti[:, i]
    q = rng.permutation(n)
    return t[q], ti[:, q]


def state(rng, mon):
    dt = gen.some_dt(rng)
    shp = p, m = gen.pick(rng, ((1, 1), (1, 1), (2, 1), (1, 2), (2, 2),
                                (3, 2), (2, 3)))
    num, den, want = grid(rng, dt, shp, 3 if p*m == 1 else 2, True)
    # the entries are realized exactly and stacked
    A, B, C, D = [], [], [], np.zeros(shp)
    for i in range(p):
        for j in range(m):
            a, b, c, d = companion(num[i][j], den[i][j])
            D[i, j] = d
            if len(a):
                A.append(a)
                B.append(b @ np.eye(m)[[j]])
                C.append(np.eye(p)[:, [i]] @ c)
    hide = gen.pick(rng, ('none', 'none', 'uncontrollable', 'unobservable'))
    if hide != 'none':
        # an integrator nobody sees
        e = 0. if dt is None else 1.
        A.append(np.array([[e]]))
        B.append(np.zeros((1, m)) if hide == 'uncontrollable' else
                 np.ones((1, m)))
        C.append(np.ones((p, 1)) if hide == 'uncontrollable' else
                 np.zeros((p, 1)))
    if not A:
        raise Skip('static')
    n = sum(len(a) for a in A)
    if n > 9:
        raise Skip('too large')
    a = np.zeros((n, n))
    k = 0
    for x in A:
        a[k:k+len(x), k:k+len(x)] = x
        k += len(x)
    b, c = np.vstack(B), np.hstack(C)
    form = gen.pick(rng, ('plain', 'perm', 'integer', 'orth'))
    if form == 'perm':
        q = rng.permutation(n)
        a, b, c = a[np.ix_(q, q)], b[q], c[:, q]
    elif form == 'integer' and n > 1:
        t, ti = unimodular(rng, n)
        a, b, c = t @ a @ ti, t @ b, c @ ti
    elif form == 'orth':
        q = gen.orth(rng, n)
        a, b, c = q @ a @ q.T, q @ b, c @ q.T
        rows = np.max(np.abs(a), axis=1)
        if np.min(rows) <= .05*np.max(rows):
            raise Skip('the rounding errors of the transformation are large '
                       'in some rows')
    G = State(a, b, c, D, dt=dt)
    compare(mon, 'State', G, want, form=form, hide=hide)
    mon.nontrivial('ss', a, b, c, D, dt,
                   bucket=f'{form}:{hide}:{dt is None}:'
                   f'{np.isinf(want).any()}:{p*m == 1}')


def scaled(rng, mon):
    """Fast and slow State models."""
    dt = None
    shp = gen.shape(rng, 3)
    x = gen.ss(rng, dt=dt, shp=shp, kind=gen.pick(rng, ('stable',
                                                       'unstable')), gain=0)
    s = float(10.**rng.integers(-7, 8))
    if np.linalg.cond(x.a) > 1e4:
        raise Skip('nearly an integrator')
    want = x.d - x.c @ np.linalg.solve(x.a, x.b)
    k = float(10.**rng.integers(-3, 4))
    G = State(x.a*s, x.b*s*k, x.c/k, x.d)
    compare(mon, 'State:scaled', G, want)
    mon.nontrivial('scaled', x.raw(), s, k, bucket=f'{s}')


def general(rng, mon):
    """Models of every kind with no pole near zero frequency."""
    dt = gen.some_dt(rng)
    shp = gen.shape(rng, 4)
    kind = gen.pick(rng, ('ss', 'tf', 'ssgain', 'tfgain'))
    x = algebra.operand(rng, dt, shp, kind)
    e = 0. if dt is None else 1.
    pl = x.poles()
    if len(pl) and np.min(np.abs(pl - e)) < .1:
        raise Skip('pole at zero frequency')
    want = x.at(np.array([e]))[0].real
    G = x.build(rng)
    compare(mon, f'general:{kind}', G, want)
    if rng.random() < .3:
        H = (state_to_transfer if isinstance(G, State) else
             transfer_to_state)(G)
        compare(mon, f'converted:{kind}', H, want)
    mon.nontrivial(kind, x.raw(), bucket=f'{kind}:{dt is None}')


def settle(rng, mon):
    """The step response of a stable model ends at the DC gain."""
    dt = gen.some_dt(rng)
    shp = gen.shape(rng, 3)
    kind = gen.pick(rng, ('ss', 'tf'))
    x = (gen.ss(rng, dt=dt, shp=shp, kind='stable', gain=0, nmax=4)
         if kind == 'ss' else
         gen.tf(rng, dt, shp, 3, 'stable', gain=0))
    pl = x.poles()
    if len(pl) == 0:
        raise Skip('static')
    G = x.build(rng)
    if dt is None:
        tau = 1/np.min(-pl.real)
        top = np.max(np.abs(pl))
        N = int(60*tau*top*2) + 2
        if N > 6000:
            raise Skip('stiff')
        t = np.linspace(0, 60*tau, N)
    else:
        r = np.max(np.abs(pl))
        N = 80 if r == 0 else min(4000, int(40/max(-np.log(r), .01)) + 80)
        t = np.arange(N)*dt
    y, _ = mon.call('simulate_step_response', simulate_step_response, G, t)
    y = np.asarray(y)
    y = y.reshape(len(t), *shp)
    dc = np.asarray(mon.call('dcgain', lambda: G.dcgain)).reshape(shp)
    big = np.max(np.abs(y), axis=0)
    mon.close(y[-1], dc, 'settles', rtol=1e-6, atol=1e-6*(1 + np.max(big)),
              model=G)
    mon.nontrivial('settle', x.raw(), bucket=f'{kind}:{dt is None}')


WORKLOADS = [
    Workload('transfer', transfer, 3000),
    Workload('state', state, 3000),
    Workload('scaled', scaled, 800),
    Workload('general', general, 2000),
    Workload('settle', settle, 400),
]
