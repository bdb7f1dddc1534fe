"""Reported poles, stability and the pole table."""
import numpy as np
from harold import State, Transfer, feedback, state_to_transfer, \
    transfer_to_state

from .. import algebra, gen, oracle
from ..core import Skip, Workload

ID = 'C09'
RULE = ('distinct models whose poles, stability flag and pole table were '
        'compared with the roots they were built from')


def inside(rts, dt):
    """Signed margin of the roots to the stability boundary."""
    if rts.size == 0:
        return np.inf
    return np.min(-rts.real if dt is None else 1 - np.abs(rts))


def same_poles(mon, key, got, rts, unit=1., **data):
    """Compared as polynomials, which is insensitive to multiplicity."""
    got = np.ravel(np.asarray(got, dtype=complex))
    mon.check(got.size == rts.size, key + ':count',
              f'{got.size} poles instead of {rts.size}', got=got, want=rts,
              **data)
    if rts.size == 0:
        return
    r = max(unit, np.max(np.abs(rts)))
    mon.close(np.poly(got/r), np.poly(rts/r), key + ':poles', rtol=1e-7,
              scale=1., got_poles=got, want_poles=rts, **data)
    # conjugate pairs come as pairs, so the coefficients are real
    mon.check(oracle.same_multiset(got, got.conj(), 0) <= 1e-9*r,
              key + ':conjugates', 'not closed under conjugation', got=got)


def table(mon, key, G, dt, unit=1., **data):
    t = mon.result('pole_properties', G.pole_properties)
    poles = np.ravel(np.asarray(G.poles, dtype=complex))
    if poles.size == 0:
        mon.check(t is None, key + ':table-gain', f'{t}', **data)
        return
    mon.check(np.shape(t) == (poles.size, 3), key + ':table-shape',
              f'{np.shape(t)}', **data)
    mon.check(np.array_equal(t[:, 0], poles), key + ':table-poles',
              'first column is not the poles', got=t, **data)
    for row in t:
        z, f, d = complex(row[0]), complex(row[1]), complex(row[2])
        if z == (0 if dt is None else 1):
            mon.check(f == 0 and np.isnan(d.real), key + ':table-integrator',
                      f'{row}', **data)
            continue
        if abs(z - (0 if dt is None else 1)) < 1e-5*unit:
            continue
        if dt is not None and abs(z) < 1e-5:
            continue
        s = z if dt is None else np.log(z)/dt
        mon.close([f/unit, d], [abs(s)/unit, -s.real/abs(s)],
                  key + ':table', rtol=1e-9, scale=max(1, abs(s)/unit),
                  row=row, **data)


def judge(mon, key, G, rts, dt, unit=1., **data):
    same_poles(mon, key, G.poles, rts, unit, **data)
    margin = inside(rts, dt)/unit
    if abs(margin) > 1e-3:
        mon.check(oracle.flag(G, '_isstable', margin > 0), key + ':stability',
                  f'not reported, margin {margin}', got=G, **data)
    table(mon, key, G, dt, unit, **data)


def kind(rng):
    return gen.pick(rng, ('stable', 'stable', 'any', 'unstable'))


def state(rng, mon):
    dt = gen.some_dt(rng)
    n = int(rng.integers(1, 9))
    rts = gen.roots(rng, n, dt, kind(rng), repeat=.15)
    form = gen.pick(rng, ('orth', 'sim', 'diag', 'tri', 'comp', 'perm'))
    a = gen.real_blocks(rts)
    if form == 'orth':
        q = gen.orth(rng, n)
        a = q @ a @ q.T
    elif form == 'sim':
        t = gen.similarity(rng, n)
        a = np.linalg.solve(t, a @ t)
    elif form == 'tri':
        a = a + np.triu(np.round(rng.normal(size=(n, n)), 2), 2)
    elif form == 'perm':
        p = rng.permutation(n)
        a = a[p][:, p]
    elif form == 'comp':
        c = gen.poly(rts)
        a = np.eye(n, k=1)
        a[-1] = -c[:0:-1]
        if n > 6:
            raise Skip('companion form too sensitive')
    p, m = gen.shape(rng, 3)
    b, c = gen.matrix(rng, n, m), gen.matrix(rng, p, n)
    w = gen.unit(rng, dt)
    a = a*w
    G = mon.result('State', State, a, b, c, np.zeros((p, m)), dt)
    judge(mon, f'state:{form}', G, gen.expand(rts)*w, dt, w, a=a)
    mon.nontrivial(a, dt, bucket=('S', form, n, dt is None),
                   sample={'a': a.tolist(), 'dt': dt})


def siso(rng, mon):
    dt = gen.some_dt(rng)
    n = int(rng.integers(1, 7))
    rts = gen.roots(rng, n, dt, kind(rng), repeat=.15)
    den = gen.lead(rng)*gen.poly(rts)
    nd = int(rng.integers(0, n+1))
    num = gen.coeffs(rng, nd)
    if rng.random() < .2:
        # a cancelling factor stays a pole of the given fraction
        num = gen.poly(rts[:1])
    w = gen.unit(rng, dt)
    x = gen.retimed(gen.TF([[num]], [[den]], dt), w)
    num, den = x.num[0][0], x.den[0][0]
    G = mon.result('Transfer', Transfer, num, den, dt)
    judge(mon, 'siso', G, gen.expand(rts)*w, dt, w, num=num, den=den)
    mon.nontrivial(num, den, dt, bucket=('T', n, dt is None))


def boundary(rng, mon):
    """Simple poles exactly on the boundary, and everything else inside."""
    dt = gen.some_dt(rng)
    n = int(rng.integers(1, 4))
    inner = [gen.real_root(rng, dt, 'stable') for _ in range(n-1)]
    edge = 0. if dt is None else gen.pick(rng, (1., -1.))
    rts = inner + [edge]
    u = rng.random()
    if u < .5:
        a = np.diag(rts)[rng.permutation(n)]
        a = np.diag(np.array(rts)[rng.permutation(n)])
        G = mon.result('State', State, a, np.ones((n, 1)), np.ones((1, n)), 0,
                       dt)
    else:
        n = 1
        rts = [edge]
        G = mon.result('Transfer', Transfer, [1.], gen.lead(rng) *
                       np.array([1., -edge]), dt)
    mon.check(oracle.flag(G, '_isstable', False), 'boundary:stability',
              'reported stable', got=G)
    judge(mon, 'boundary', G, np.array(rts, complex), dt)
    mon.nontrivial('b', rts, dt, u < .5, bucket=('B', n, dt is None))


def gains(rng, mon):
    dt = gen.some_dt(rng)
    shp = gen.shape(rng, 4)
    k = gen.pick(rng, ('ssgain', 'tfgain'))
    G = mon.result('build', algebra.operand(rng, dt, shp, k).build, rng)
    judge(mon, f'gain:{k}', G, np.array([]), dt)
    mon.check(oracle.flag(G, '_isstable', True) and bool(G._isgain),
              'gain:stable', 'a static gain is not reported stable', got=G)
    mon.nontrivial('g', repr(G.to_array()), dt, bucket=('G', k, shp))


def mimo(rng, mon):
    """Poles of transfer matrices: no root invented, none missed."""
    x = gen.tf(rng, shp=gen.shape(rng, 3, ('simo', 'miso', 'square', 'wide')),
               maxdeg=2, gain=0, kind=kind(rng), repeat=0.)
    G = mon.result('build', x.build, rng)
    got = np.ravel(np.asarray(G.poles, complex))
    true, maybe = [], []
    for rn, rd in zip(x.num, x.den):
        for n, d in zip(rn, rd):
            r = np.roots(d)
            maybe.append(r)
            if not np.any(n):
                continue
            v = np.abs(np.polyval(n, r))
            true.append(r[v > 1e-4*np.sum(np.abs(n)) *
                          np.maximum(1, np.abs(r))**(len(n)-1)])
    true = np.concatenate(true) if true else np.array([])
    maybe = np.concatenate(maybe)
    tol = 2e-3*(1 + np.max(np.abs(maybe)))
    for s in got:
        mon.check(np.min(np.abs(maybe - s)) < tol, 'mimo:invented',
                  f'{s} is no pole of any entry', raw=x.raw(), got=got)
    for s in true:
        mon.check(got.size and np.min(np.abs(got - s)) < tol, 'mimo:missed',
                  f'{s} is a pole of an entry', raw=x.raw(), got=got)
    margin = inside(true, x.dt)
    if margin < -1e-2:
        mon.check(oracle.flag(G, '_isstable', False), 'mimo:stability',
                  'reported stable', raw=x.raw())
    if inside(maybe, x.dt) > 1e-2:
        mon.check(oracle.flag(G, '_isstable', True), 'mimo:stability',
                  'reported unstable', raw=x.raw())
    table(mon, 'mimo', G, x.dt)
    mon.nontrivial('m', x.raw(), bucket=('M', x.shape, x.dt is None))


def derived(rng, mon):
    """Models computed by the library report their own poles, too."""
    dt = gen.some_dt(rng)
    shp = gen.shape(rng, 2, ('siso', 'siso', 'square'))
    x = algebra.operand(rng, dt, shp, gen.pick(rng, ('ss', 'tf')),
                        kw_tf={'maxdeg': 2})
    y = algebra.operand(rng, dt, shp, gen.pick(rng, ('ss', 'tf', 'ssgain')),
                        kw_tf={'maxdeg': 1})
    G = mon.result('build', x.build, rng)
    H = mon.result('build', y.build, rng)
    ops = {'add': lambda: G + H, 'matmul': lambda: G @ H, 'neg': lambda: -G,
           'scale': lambda: 3*G, 'index': lambda: G[0, 0],
           'feedback': lambda: feedback(G, H),
           'transfer': lambda: state_to_transfer(G),
           'state': lambda: transfer_to_state(G)}
    op = gen.pick(rng, list(ops))
    try:
        R = mon.call(op, ops[op])
    except Exception:
        raise Skip('the operation failed')
    if type(R).__name__ == 'State':
        rts = oracle.model_poles(R)
    elif R.shape == (1, 1):
        rts = np.roots(np.ravel(R.den))
    else:
        raise Skip('transfer matrix')
    if not R._isgain and rts.size > 12:
        raise Skip('high order')
    judge(mon, f'derived:{op}', R, rts, dt, x=x.raw(), y=y.raw())
    mon.nontrivial('d', op, x.raw(), y.raw(), bucket=('D', op, shp))


WORKLOADS = [Workload('state', state, 9000), Workload('siso', siso, 8000),
             Workload('boundary', boundary, 1500),
             Workload('gains', gains, 1500), Workload('mimo', mimo, 5000),
             Workload('derived', derived, 6000)]
