"""Sums, differences and negations."""
import operator

import numpy as np

from .. import algebra, gen, oracle
from ..core import Skip, Workload

ID = 'C02'
RULE = ('distinct operand pairs (raw data, kinds, order) whose sum, '
        'difference or negation was compared at complex points')


def pair(rng):
    k1, k2 = gen.pick(rng, algebra.KINDS), gen.pick(rng, algebra.KINDS)
    if k1 == k2 == 'const':
        raise Skip('two constants')
    return k1, k2


def shapes(rng):
    s = gen.shape(rng, 3)
    u = rng.random()
    if u < .6 or s == (1, 1):
        return s, s
    return (s, (1, 1)) if u < .8 else ((1, 1), s)


def binary(rng, mon):
    dt = gen.some_dt(rng)
    k1, k2 = pair(rng)
    s1, s2 = shapes(rng)
    x = algebra.operand(rng, dt, s1, k1)
    y = algebra.operand(rng, dt, s2, k2)
    if rng.random() < .06 and type(x) is type(y) and s1 == s2:
        y = x       # exact cancellation in differences
    if rng.random() < .15 and k1 == k2 == 'tf' and s1 == s2 and y is not x:
        y.den = [[d.copy()*gen.lead(rng) for d in r] for r in x.den]
        y.num = [[gen.coeffs(rng, int(rng.integers(0, len(d))))
                  for d in r] for r in y.den]
    w = gen.unit(rng, dt)
    if y is x:
        x = y = gen.retimed(x, w)
    else:
        x, y = gen.retimed(x, w), gen.retimed(y, w)
    check(rng, mon, x, y, (k1, k2), dt, w)


def units(rng, mon):
    """Transfers with time measured in any unit."""
    s = gen.shape(rng, 2)
    w = gen.unit(rng, None, 1., hi=40)
    x, y = (gen.retimed(algebra.operand(rng, None, s, 'tf',
                                        kw_tf={'maxdeg': 2}), w)
            for _ in range(2))
    check(rng, mon, x, y, ('tf', 'tf'), None, w)


def stiff(rng, mon):
    """Fast and slow poles together, some of them almost common."""
    def some(n):
        return -2.**rng.uniform(-8, 8, n)
    n = int(rng.integers(1, 4))
    p = some(n)
    q = some(int(rng.integers(1, 4)))
    u = rng.random()
    if u < .4:
        q = p*(1 + 2.**-rng.integers(4, 45, n)*rng.integers(-1, 2, n))
    elif u < .6:
        k = min(n, q.size)
        q[:k-1] = p[:k-1]
    x, y = (gen.TF([[np.array([np.prod(-r)*gen.lead(rng)])]], [[np.poly(r)]],
                   None, ['stiff']) for r in (p, q))
    G = mon.result('build', x.build, rng)
    H = mon.result('build', y.build, rng)
    pts = 1j*2.**rng.uniform(-9, 9, 8)
    vx, vy = x.at(pts), y.at(pts)
    R = mon.result('add', operator.add, G, H)
    got = oracle.model_eval(R, pts)
    mon.close(got, vx + vy, 'stiff', 1e-3, scale=abs(vx) + abs(vy),
              x=x.raw(), y=y.raw(), got_model=R)
    mon.nontrivial('stiff', x.raw(), y.raw(), bucket=('stiff', n, q.size))


def no_rows(x, y):
    """Dynamic Transfers with one output refuse 1D arrays."""
    for a, b in ((x, y), (y, x)):
        if (isinstance(a, algebra.Const) and a.form == 'row' and
                isinstance(b, gen.TF) and b.shape != (1, 1)):
            a.form = '2d'


def check(rng, mon, x, y, kinds, dt, w=1.):
    no_rows(x, y)
    G = mon.result('build', x.build, rng)
    H = mon.result('build', y.build, rng)
    name, op = gen.pick(rng, (('add', operator.add), ('sub', operator.sub)))
    key = f'{name}:{"/".join(kinds)}'
    pts = oracle.points(rng, np.concatenate([x.poles(), y.poles()]), 5, dt,
                        unit=w)
    vx, vy = x.at(pts), y.at(pts)
    want = op(vx, vy)
    R = mon.result(name, op, G, H)
    algebra.judge(mon, key, R, want.shape[1:], dt, want, pts,
                  max(np.max(np.abs(vx)), np.max(np.abs(vy))),
                  x=x.raw(), y=y.raw())
    mon.nontrivial(name, x.raw(), y.raw(),
                   bucket=(name, kinds, x.shape, y.shape, dt is None),
                   sample={'op': name, 'kinds': kinds,
                           'shapes': [x.shape, y.shape], 'dt': dt})
    for raw, M in ((x, G), (y, H)):
        if not isinstance(raw, algebra.Const) and rng.random() < .5:
            N = mon.result('neg', operator.neg, M)
            v = raw.at(pts)
            algebra.judge(mon, 'neg', N, raw.shape, dt, -v, pts, 0.,
                          x=raw.raw())


def chain(rng, mon):
    """Longer sums evaluated in different groupings and orders."""
    dt = gen.some_dt(rng)
    s = gen.shape(rng, 2)
    n = int(rng.integers(3, 6))
    terms, kinds = [], []
    for i in range(n):
        k = gen.pick(rng, algebra.KINDS)
        if i == 0 and k == 'const':
            k = 'ss'
        shp = s if i == 0 or rng.random() < .7 else (1, 1)
        kw = {'maxdeg': 1, 'entry_gain': 0.3} if k == 'tf' else None
        terms.append(algebra.operand(rng, dt, shp, k, kw_tf=kw,
                                     kw_ss={'nmax': 2}))
        if k == 'const' and terms[-1].form == 'row':
            terms[-1].form = '2d'
        kinds.append(k)
    pts = oracle.points(rng, np.concatenate([t.poles() for t in terms]), 4,
                        dt)
    objs = [mon.result('build', t.build, rng) for t in terms]
    acc, val = objs[0], terms[0].at(pts)
    big = np.max(np.abs(val))
    for t, o in zip(terms[1:], objs[1:]):
        v = t.at(pts)
        big = max(big, np.max(np.abs(v)))
        u = int(rng.integers(0, 4))
        if u == 0:
            acc, val = mon.result('add', operator.add, acc, o), val + v
        elif u == 1:
            acc, val = mon.result('add', operator.add, o, acc), val + v
        elif u == 2:
            acc, val = mon.result('sub', operator.sub, acc, o), val - v
        else:
            acc, val = mon.result('sub', operator.sub, o, acc), v - val
    algebra.judge(mon, 'chain', acc, val.shape[1:], dt, val, pts, big,
                  rtol=1e-5, terms=[t.raw() for t in terms])
    mon.nontrivial('chain', [t.raw() for t in terms],
                   bucket=('chain', n, dt is None))


WORKLOADS = [Workload('binary', binary, 24000),
             Workload('units', units, 3000),
             Workload('stiff', stiff, 3000),
             Workload('chain', chain, 4000)]
