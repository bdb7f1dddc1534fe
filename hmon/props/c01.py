"""Representation conversion keeps the input-output behaviour."""
import numpy as np
from harold import (State, Transfer, state_to_transfer, transfer_to_state)

from .. import gen, oracle
from ..core import Workload

ID = 'C01'
RULE = ('distinct models (by raw data) whose converted form was compared '
        'with the original transfer matrix at complex points')

RTOL = 1e-6


def compare(mon, rng, raw, G, key, rtol=RTOL, k=6):
    pts = oracle.points(rng, raw.poles(), k, raw.dt,
                        unit=getattr(raw, 'unit', 1.))
    mon.check(tuple(G.shape) == tuple(raw.shape), key + ':shape-attr',
              f'shape {G.shape} instead of {raw.shape}', model=G,
              raw=raw.raw())
    mon.check((G.NumberOfOutputs, G.NumberOfInputs) == tuple(raw.shape),
              key + ':channel-count', 'wrong channel counts', raw=raw.raw())
    mon.check(G.SamplingPeriod == raw.dt, key + ':sampling-period',
              f'{G.SamplingPeriod} instead of {raw.dt}', raw=raw.raw())
    mon.check(G.SamplingSet == ('R' if raw.dt is None else 'Z'),
              key + ':sampling-set', G.SamplingSet, raw=raw.raw())
    mon.close(oracle.model_eval(G, pts), raw.at(pts), key + ':response',
              rtol=rtol, atol=rtol, raw=raw.raw(), model=G)


def moderate(raw):
    """Companion forms are badly scaled in extreme units of time."""
    return 2**-8 <= getattr(raw, 'unit', 1.) <= 2**8


def spelled(rng, word):
    """Capital letters do not matter."""
    u = rng.random()
    return word if u < .6 else word.upper() if u < .8 else word.capitalize()


def refused(rng, mon):
    what = gen.pick(rng, ('state', 'transfer', 'type', 'type'))
    x = gen.tf(rng) if what != 'transfer' else gen.ss(rng)
    G = mon.result('build', x.build, rng)
    kw = {}
    f = state_to_transfer if what == 'transfer' else transfer_to_state
    if what == 'type':
        f = gen.pick(rng, (transfer_to_state, state_to_transfer))
        G = gen.pick(rng, (None, 'G', 3.5))
    else:
        kw['output'] = gen.pick(rng, ('arrays', 'sys', '', 'tuple', 'matrix',
                                      'poly', 'system '))
    mon.rejected(f.__name__, f, G, exc=Exception if what == 'type' else
                 ValueError, **kw)
    mon.nontrivial(what, str(kw), x.raw(), bucket=(what, f.__name__, str(kw)))


def to_state(rng, mon):
    raw = gen.tf(rng)
    raw = gen.retimed(raw, gen.unit(rng, raw.dt, .4))
    forward(rng, mon, raw)


def to_state_wide(rng, mon):
    """Larger transfer matrices and higher orders."""
    if rng.random() < .5:
        raw = gen.tf(rng, shp=gen.shape(rng, 5), maxdeg=3)
    else:
        raw = gen.tf(rng, shp=(1, 1), maxdeg=7, repeat=0.05, gain=0)
    forward(rng, mon, raw)


def forward(rng, mon, raw):
    G = mon.result('Transfer', raw.build, rng)
    S = mon.result('transfer_to_state', transfer_to_state, G)
    mon.check(isinstance(S, State), 'type', 'not a State', got=S)
    compare(mon, rng, raw, S, 'to-state')
    mon.nontrivial('f', raw.raw(),
                   bucket=(raw.shape, raw.dt is None, raw.tags),
                   sample={'shape': raw.shape, 'dt': raw.dt,
                           'tags': raw.tags})
    arg = G
    if rng.random() < .5:
        arg = (G.num, G.den)
        if raw.shape != (1, 1):
            arg = ([[x.tolist()[0] for x in r] for r in G.num],
                   [[x.tolist()[0] for x in r] for r in G.den])
    mats = mon.result('transfer_to_state(matrices)', transfer_to_state,
                      arg, output=spelled(rng, 'matrices'))
    mon.check(len(mats) == 4, 'to-state-matrices', 'not four matrices')
    pts = oracle.points(rng, raw.poles(), 3, raw.dt,
                        unit=getattr(raw, 'unit', 1.))
    mats = [np.zeros((0, 0)) if x is None else x for x in mats]
    mon.close(oracle.ss_eval(*mats, pts), raw.at(pts),
              'to-state-matrices', rtol=RTOL, atol=RTOL, raw=raw.raw())
    mon.check(mon.result('transfer_to_state(State)', transfer_to_state, S)
              is S, 'state-passes-through', 'State changed')
    mon.check(mon.result('state_to_transfer(Transfer)', state_to_transfer, G)
              is G, 'transfer-passes-through', 'Transfer changed')
    # and back
    if S.NumberOfStates <= 12 and moderate(raw):
        G2 = mon.result('state_to_transfer', state_to_transfer, S)
        mon.check(isinstance(G2, Transfer), 'type', 'not a Transfer')
        compare(mon, rng, raw, G2, 'round-trip', rtol=1e-5)


def slow(rng, mon):
    """Transfer matrices whose denominators have small coefficients only."""
    n = int(rng.integers(1, 3))
    p, m = gen.pick(rng, ((1, 2), (2, 1), (2, 2), (1, 3), (3, 1)))
    num, den = [], []
    for _ in range(p):
        ent = [gen.tf_entry(rng, None, n, zero=0, den=gen.poly(
            gen.roots(rng, n, None, repeat=0.))) for _ in range(m)]
        num.append([e[0] for e in ent])
        den.append([e[1] for e in ent])
    raw = gen.retimed(gen.TF(num, den, None, ['dyn']),
                      2.**rng.integers(-40, -25))
    forward(rng, mon, raw)


def to_transfer(rng, mon):
    raw = gen.ss(rng)
    backward(rng, mon, gen.retimed(raw, gen.unit(rng, raw.dt, .4)))


def to_transfer_wide(rng, mon):
    backward(rng, mon, gen.ss(rng, shp=gen.shape(rng, 4), nmax=8, gain=0,
                              repeat=0.05))


def decoupled(rng, mon):
    """Block structured models: some channels have no path at all."""
    dt = gen.some_dt(rng)
    x = gen.ss(rng, dt=dt, shp=gen.shape(rng, 2), nmax=3, gain=0)
    y = gen.ss(rng, dt=dt, shp=gen.shape(rng, 2), nmax=3, gain=0)

    def blk(u, v):
        out = np.zeros((u.shape[0]+v.shape[0], u.shape[1]+v.shape[1]))
        out[:u.shape[0], :u.shape[1]] = u
        out[u.shape[0]:, u.shape[1]:] = v
        return out
    raw = gen.SS(blk(x.a, y.a), blk(x.b, y.b), blk(x.c, y.c), blk(x.d, y.d),
                 dt, ['blk'])
    if rng.random() < .5:
        q = rng.permutation(raw.n)
        raw.a, raw.b, raw.c = raw.a[q][:, q], raw.b[q], raw.c[:, q]
    backward(rng, mon, raw)


def backward(rng, mon, raw):
    S = mon.result('State', raw.build, rng)
    G = mon.result('state_to_transfer', state_to_transfer, S)
    mon.check(isinstance(G, Transfer), 'type', 'not a Transfer', got=G)
    compare(mon, rng, raw, G, 'to-transfer')
    mon.nontrivial('b', raw.raw(), bucket=(raw.shape, raw.n, raw.dt is None,
                                           raw.tags))
    if raw.n:
        arg = S if rng.random() < .5 else S.matrices
        n, d = mon.result('state_to_transfer(polynomials)',
                          state_to_transfer, arg,
                          output=spelled(rng, 'polynomials'))
        if raw.shape == (1, 1):
            n, d = [[n]], [[d]]
        pts = oracle.points(rng, raw.poles(), 3, raw.dt,
                            unit=getattr(raw, 'unit', 1.))
        mon.close(oracle.tf_eval(n, d, pts), raw.at(pts),
                  'to-transfer-polynomials', rtol=RTOL, atol=RTOL,
                  raw=raw.raw())
        # every entry is a proper rational function
        for i in range(raw.shape[0]):
            for j in range(raw.shape[1]):
                mon.check(np.size(n[i][j]) <= np.size(d[i][j]), 'proper',
                          'improper entry', raw=raw.raw())
    if moderate(raw):
        S2 = mon.result('transfer_to_state', transfer_to_state, G)
        compare(mon, rng, raw, S2, 'round-trip', rtol=1e-5, k=4)


WORKLOADS = [Workload('to_state', to_state, 5000),
             Workload('to_state_wide', to_state_wide, 1500),
             Workload('slow', slow, 1000),
             Workload('to_transfer', to_transfer, 4000),
             Workload('to_transfer_wide', to_transfer_wide, 1500),
             Workload('decoupled', decoupled, 2000),
             Workload('refused', refused, 500)]
