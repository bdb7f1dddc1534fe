"""Products."""
import operator

import numpy as np

from .. import algebra, gen, oracle
from ..core import Skip, Workload

ID = 'C03'
RULE = ('distinct operand pairs (raw data, kinds, order, operator) whose '
        'product was compared at complex points')

ONE = (1, 1)


def value(op, kinds, vx, vy):
    """What the product of two K x p x m values must be."""
    if ONE in (vx.shape[1:], vy.shape[1:]):
        return vx*vy
    if op == 'mul' and not any(k.startswith('ss') for k in kinds):
        return vx*vy            # elementwise
    return vx @ vy


def shapes(rng, op, kinds):
    hi = 3
    u = rng.random()
    if u < .15:
        return ONE, ONE
    if u < .4:
        s = gen.shape(rng, hi)
        return (s, ONE) if u < .275 else (ONE, s)
    if op == 'mul' and not any(k.startswith('ss') for k in kinds):
        s = gen.shape(rng, hi)
        return s, s
    p, q, m = rng.integers(1, hi+1, 3)
    if 'tf' in kinds and rng.random() < .6:
        q = min(q, 2)
    return (int(p), int(q)), (int(q), int(m))


def binary(rng, mon):
    dt = gen.some_dt(rng)
    k1, k2 = gen.pick(rng, algebra.KINDS), gen.pick(rng, algebra.KINDS)
    if k1 == k2 == 'const':
        raise Skip('two constants')
    op = gen.pick(rng, ('matmul', 'matmul', 'mul'))
    s1, s2 = shapes(rng, op, (k1, k2))
    inner = s1[1] if op == 'matmul' else 1
    kw = {'maxdeg': 1 if inner > 2 or max(*s1, *s2) > 2 else 2}
    if s1 == s2 == ONE:
        kw = {'maxdeg': 4}
    x = algebra.operand(rng, dt, s1, k1, kw_tf=kw)
    y = algebra.operand(rng, dt, s2, k2, kw_tf=kw)
    w = gen.unit(rng, dt)
    x, y = gen.retimed(x, w), gen.retimed(y, w)
    # nothing but a scalar can be on the left or right of a scalar with @
    G = mon.result('build', x.build, rng)
    H = mon.result('build', y.build, rng)
    pts = oracle.points(rng, np.concatenate([x.poles(), y.poles()]), 5, dt,
                        unit=w)
    vx, vy = x.at(pts), y.at(pts)
    want = value(op, (k1, k2), vx, vy)
    R = mon.result(op, getattr(operator, op), G, H)
    algebra.judge(mon, f'{op}:{k1}/{k2}', R, want.shape[1:], dt, want, pts,
                  np.max(np.abs(vx))*np.max(np.abs(vy)), x=x.raw(),
                  y=y.raw())
    mon.nontrivial(op, x.raw(), y.raw(),
                   bucket=(op, k1, k2, s1, s2, dt is None),
                   sample={'op': op, 'kinds': (k1, k2), 'shapes': [s1, s2],
                           'dt': dt})


def program(rng, mon):
    """Straight line programs over + - @ and scaling on a pool of models."""
    dt = gen.some_dt(rng)
    dims = [int(rng.integers(1, 3)) for _ in range(2)]
    pool = []
    for _ in range(3):
        s = (gen.pick(rng, dims), gen.pick(rng, dims))
        k = gen.pick(rng, ('ss', 'ss', 'tf', 'ssgain', 'tfgain', 'const'))
        if not pool:
            k = 'ss'
        pool.append(algebra.operand(rng, dt, s, k, kw_tf={'maxdeg': 1},
                                    kw_ss={'nmax': 2}))
        if k == 'const' and pool[-1].form == 'row':
            pool[-1].form = '2d'
    pts = oracle.points(rng, np.concatenate([t.poles() for t in pool]), 4,
                        dt)
    env = [(mon.result('build', t.build, rng), t.at(pts),
            np.max(np.abs(t.at(pts)))+1e-3) for t in pool]
    done = []
    for _ in range(int(rng.integers(2, 6))):
        i, j = rng.integers(0, len(env), 2)
        (G, g, a), (H, h, b) = env[i], env[j]
        if not algebra.is_model(G) and not algebra.is_model(H):
            continue
        sg, sh = g.shape[1:], h.shape[1:]
        ops = ['neg', 'scale']
        if sg == sh or ONE in (sg, sh):
            ops += ['add', 'sub']
        if sg[1] == sh[0] or ONE in (sg, sh):
            ops += ['matmul', 'matmul']
        op = gen.pick(rng, ops)
        if op == 'neg':
            r, v, c = mon.result(op, operator.neg, G), -g, a
        elif op == 'scale':
            k = float(gen.pick(rng, (.5, -1.5, 2., 3.)))
            if not algebra.is_model(G):
                continue
            r, v, c = (mon.result('mul', operator.mul, G, k)
                       if rng.random() < .5 else
                       mon.result('mul', operator.mul, k, G)), k*g, abs(k)*a
        elif op == 'matmul':
            r = mon.result(op, operator.matmul, G, H)
            v = g*h if ONE in (sg, sh) else g @ h
            c = a*b*2
        else:
            f = getattr(operator, op)
            r, v, c = mon.result(op, f, G, H), f(g, h), a + b
        if algebra.is_model(r):
            n = (r.NumberOfStates if type(r).__name__ == 'State' else
                 sum(len(np.ravel(d))-1 for row in oracle.parts(r)[1]
                     for d in row))
            if n > 12:
                break
        env.append((r, v, c))
        done.append((op, int(i), int(j)))
    if not done:
        raise Skip('empty program')
    for r, v, c in env[len(pool):]:
        if algebra.is_model(r):
            algebra.judge(mon, 'program', r, v.shape[1:], dt, v, pts, c,
                          rtol=1e-5, terms=[t.raw() for t in pool],
                          program=done)
    mon.nontrivial('prog', [t.raw() for t in pool], done,
                   bucket=('prog', len(done), dt is None))


WORKLOADS = [Workload('binary', binary, 24000),
             Workload('program', program, 6000)]
