"""Sampling periods and shapes never mix silently."""
import operator

import numpy as np
from harold import (Transfer, discretize, feedback, hessenberg_realization,
                    kalman_decomposition, minimal_realization,
                    state_to_transfer, transfer_to_state, undiscretize)

from .. import algebra, gen, oracle
from ..core import Skip, Workload

ID = 'C05'
RULE = ('distinct operand pairs with unequal sampling periods or unfit '
        'shapes that were refused, and distinct models whose descendants '
        'kept the sampling period')

BAD = (ValueError, IndexError, TypeError)
MODELS = algebra.KINDS[:4]
OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
       'matmul': operator.matmul, 'truediv': operator.truediv,
       'feedback': feedback,
       'feedback+': lambda a, b: feedback(a, b, negative=False)}


def other_dt(rng, dt):
    u = rng.random()
    if dt is not None and u < .3:
        return None
    if dt is not None and u < .5:
        return dt*float(gen.pick(rng, (1 + 1e-6, 2., .5, 1.001)))
    while True:
        x = gen.some_dt(rng, 1.)
        if x != dt:
            return x


def dts(rng, mon):
    dt1 = gen.some_dt(rng, .7)
    dt2 = other_dt(rng, dt1)
    if rng.random() < .5:
        dt1, dt2 = dt2, dt1
    k1, k2 = gen.pick(rng, MODELS), gen.pick(rng, MODELS)
    op = gen.pick(rng, list(OPS))
    if op in ('add', 'sub'):
        s1 = s2 = gen.shape(rng, 3)
        if rng.random() < .3:
            s2 = (1, 1)
    elif op in ('mul', 'matmul', 'truediv'):
        s1 = s2 = gen.shape(rng, 3, ('siso', 'siso', 'square'))
    else:
        s1 = gen.shape(rng, 3)
        s2 = s1[::-1]
    x = algebra.operand(rng, dt1, s1, k1, kw_tf={'maxdeg': 1})
    y = algebra.operand(rng, dt2, s2, k2, kw_tf={'maxdeg': 1})
    if op == 'truediv' and isinstance(y, gen.SS):
        y.d = np.eye(s2[0])
    G, H = mon.result('build', x.build, rng), mon.result('build', y.build,
                                                         rng)
    mon.rejected(op, OPS[op], G, H,
                 exc=BAD + ((np.linalg.LinAlgError, ZeroDivisionError)
                            if op == 'truediv' else ()),
                 key=f'dt:{op}:{k1}/{k2}')
    mon.nontrivial(op, x.raw(), y.raw(), bucket=('dt', op, k1, k2, s1, s2),
                   sample={'op': op, 'dts': [dt1, dt2], 'kinds': [k1, k2]})


def broadcastable(s1, s2):
    return all(a == b or 1 in (a, b) for a, b in zip(s1, s2))


def shapes(rng, mon):
    dt = gen.some_dt(rng)
    k1 = gen.pick(rng, algebra.KINDS)
    k2 = gen.pick(rng, algebra.KINDS)
    if k1 == k2 == 'const':
        raise Skip('two constants')
    op = gen.pick(rng, list(OPS))
    if op == 'truediv':
        op = 'add'
    if k1 == 'const' and op == 'mul' or k2 == 'const' and op == 'mul':
        op = 'matmul'
    dyn = k1 in ('ss', 'tf') and k2 in ('ss', 'tf')
    state = k1.startswith('ss') or k2.startswith('ss')
    for _ in range(200):
        s1, s2 = gen.shape(rng, 3), gen.shape(rng, 3)
        if 'feedback' in op:
            if s1 != s2[::-1]:
                break
            continue
        if (1, 1) in (s1, s2):
            continue
        if op in ('add', 'sub'):
            if not broadcastable(s1, s2) or (dyn and s1 != s2):
                break
        elif op == 'mul' and not state:
            if s1 != s2:
                break
        elif s1[1] != s2[0]:
            break
    else:
        raise Skip('no unfit shapes found')
    x = algebra.operand(rng, dt, s1, k1, kw_tf={'maxdeg': 1})
    y = algebra.operand(rng, dt, s2, k2, kw_tf={'maxdeg': 1})
    G, H = mon.result('build', x.build, rng), mon.result('build', y.build,
                                                         rng)
    mon.rejected(op, OPS[op], G, H, exc=BAD, key=f'shape:{op}:{k1}/{k2}')
    mon.nontrivial(op, x.raw(), y.raw(), bucket=('shp', op, k1, k2, s1, s2))


def foreign(rng, mon):
    """Complex numbers and things that are no numbers."""
    dt = gen.some_dt(rng)
    k = gen.pick(rng, MODELS)
    op = gen.pick(rng, [o for o in OPS])
    s = gen.shape(rng, 3, ('siso', 'square', 'square') if op == 'truediv'
                  else ('siso', 'simo', 'miso', 'square', 'tall', 'wide'))
    x = algebra.operand(rng, dt, s, k, kw_tf={'maxdeg': 1})
    G = mon.result('build', x.build, rng)
    what = gen.pick(rng, ('array', 'array', 'size1', 'row', 'complex', 'str',
                          'none', 'dict'))
    shp = s[::-1] if 'feed' in op or op == 'matmul' else s
    if what in ('array', 'row'):
        if what == 'row' and shp[0] != 1:
            what = 'array'
        o = rng.normal(size=shp) + 0j
        o[tuple(rng.integers(0, n) for n in shp)] += 1j*gen.pick(
            rng, (1., -1e-3, 1e-9))
        o = o[0] if what == 'row' else o
    else:
        o = {'size1': np.array([1.+1j]), 'complex': 2.-1j, 'str': 'G',
             'none': None, 'dict': {}}[what]
    left = rng.random() < .5
    mon.rejected(op, OPS[op], *((o, G) if left else (G, o)),
                 exc=BAD + ((np.linalg.LinAlgError, ZeroDivisionError)
                            if op == 'truediv' else ()),
                 key=f'foreign:{op}:{k}:{what}:{"left" if left else "right"}')
    mon.nontrivial(op, x.raw(), what, left,
                   bucket=('foreign', op, k, what, left))


def descend(rng, G):
    """One way of computing a model from G; returns (name, thunk)."""
    p, m = G.shape
    isS = type(G).__name__ == 'State'
    ways = [('neg', lambda: -G), ('scale', lambda: G*2.5),
            ('rscale', lambda: -3*G), ('zero', lambda: G*0),
            ('mscale', lambda: G @ 2), ('rmscale', lambda: 2. @ G),
            ('div', lambda: G/4), ('plus', lambda: G + 1.),
            ('rplus', lambda: 2 - G), ('minus', lambda: G - 3),
            ('array+', lambda: G + np.ones((p, m))),
            ('array-', lambda: np.ones((p, m)) - G),
            ('array@', lambda: np.ones((2, p)) @ G),
            ('@array', lambda: G @ np.ones((m, 2))),
            ('@zero', lambda: G @ np.zeros((m, 2))),
            ('zero@', lambda: np.zeros((2, p)) @ G),
            ('self-self', lambda: G - G), ('self+self', lambda: G + G),
            ('index', lambda: G[0, 0]), ('rows', lambda: G[:1, :]),
            ('cols', lambda: G[:, -1:]),
            ('to_transfer', lambda: state_to_transfer(G)),
            ('to_state', lambda: transfer_to_state(G)),
            ('minimal', lambda: minimal_realization(G)),
            ('feedback', lambda: feedback(G, np.zeros((m, p)))),
            ('feedback+', lambda: feedback(G, np.ones((m, p))*.01, False)),
            ('feedback-left', lambda: feedback(np.ones((m, p))*.01, G,
                                               False))]
    if p == m:
        ways += [('inverse', lambda: 1/(G + 7*np.eye(p)))]
        ways += [('square', lambda: G @ G)]
    if isS:
        ways += [('hess-c', lambda: hessenberg_realization(G, form='c')),
                 ('hess-o', lambda: hessenberg_realization(G, form='o')),
                 ('kalman', lambda: kalman_decomposition(G))]
    else:
        ways += [('array*', lambda: G*np.ones((p, m))),
                 ('self*self', lambda: G*G)]
    return ways


def keeps(rng, mon):
    raw = gen.model(rng, nmax=3, hi=2, gain=.3)
    G = mon.result('build', raw.build, rng)
    gain = 'gain' in raw.tags
    ways = descend(rng, G)
    for k in rng.permutation(len(ways))[:6]:
        name, thunk = ways[k]
        try:
            R = mon.call(name, thunk)
        except Exception:
            # whether it must succeed is another property's business
            mon.skips['keeps:' + name] += 1
            continue
        mon.check(algebra.is_model(R), f'keeps:{name}:type',
                  f'returned {type(R).__name__}', raw=raw.raw())
        mon.check(R.SamplingPeriod == raw.dt and
                  R.SamplingSet == ('R' if raw.dt is None else 'Z') and
                  oracle.flag(R, '_isdiscrete', raw.dt is not None),
                  f'keeps:{name}:{"gain" if gain else "dynamic"}',
                  f'sampling period {R.SamplingPeriod} instead of {raw.dt}',
                  raw=raw.raw(), got=R)
        mon.nontrivial(name, raw.raw(), bucket=('keeps', name, gain))


def resample(rng, mon):
    raw = gen.model(rng, dt=None, nmax=3, hi=2, gain=.2)
    G = mon.result('build', raw.build, rng)
    dt = gen.some_dt(rng, 1.)
    m = gen.pick(rng, ('tustin', 'zoh', 'backward euler', 'bilinear',
                       'forward euler', '>>', '<<', 'backward difference'))
    try:
        D = mon.call('discretize', discretize, G, dt, m)
    except Exception:
        mon.skips['resample:discretize'] += 1
        return
    mon.check(D.SamplingPeriod == dt and D.SamplingSet == 'Z' and
              oracle.flag(D, '_isdiscrete', True), 'resample:discretize', f'{D.SamplingPeriod}',
              raw=raw.raw(), dt=dt, method=m)
    mon.check(G.SamplingPeriod is None, 'resample:original',
              'the original changed its sampling period')
    mon.nontrivial('rs', raw.raw(), m, dt, bucket=('rs', m))
    try:
        C = mon.call('undiscretize', undiscretize, D)
    except Exception:
        mon.skips['resample:undiscretize'] += 1
        return
    mon.check(C.SamplingPeriod is None and C.SamplingSet == 'R' and
              oracle.flag(C, '_isdiscrete', False), 'resample:undiscretize',
              f'{C.SamplingPeriod}', raw=raw.raw(), dt=dt, method=m)


WORKLOADS = [Workload('dts', dts, 10000), Workload('shapes', shapes, 10000),
             Workload('foreign', foreign, 4000),
             Workload('keeps', keeps, 6000),
             Workload('resample', resample, 4000)]
