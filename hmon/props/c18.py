"""Linear quadratic regulators."""
import numpy as np
from harold import lqr, transfer_to_state

from .. import gen
from ..core import Skip, Workload

ID = 'C18'
RULE = ('distinct (model, weights) problems whose gain, Riccati solution and '
        'closed loop eigenvalues were put back into their defining equations')
ASSUMPTIONS = ['the problem has a stabilizing solution with a margin: the '
               'Hamiltonian (symplectic) pencil has no eigenvalue close to '
               'the stability boundary',
               'the data has no entries that are rounding residue (the '
               'balancing step of SciPy magnifies them)']
REFUSE = (ValueError, TypeError, np.linalg.LinAlgError)


def definite(rng, n, lo=.2):
    u = rng.random()
    if u < .3:
        return np.eye(n)*float(gen.pick(rng, (1., 2., .5, 10.)))
    if u < .5:
        return np.diag(rng.integers(1, 6, n)).astype(float)
    q = gen.orth(rng, n)
    m = q @ np.diag(rng.uniform(lo, 4, n)) @ q.T
    return (m + m.T)/2


def joint(rng, n, m, cross):
    """Weights Q, S, R of a definite cost."""
    q, r = definite(rng, n), definite(rng, m)
    s = np.zeros((n, m))
    if cross:
        t = rng.normal(size=(n, m))
        lim = np.sqrt(np.linalg.eigvalsh(q)[0]*np.linalg.eigvalsh(r)[0])
        s = t*(.6*lim/np.linalg.norm(t, 2))
    return q, s, r


def margin(a, b, q, s, r, dt):
    """Distance of the closed loop spectrum from the stability boundary,
    from the Riccati pencil itself."""
    import scipy.linalg as sl
    n, m = b.shape
    z = np.zeros
    if dt is None:
        ri = np.linalg.solve(r, np.c_[s.T, b.T])
        ac = a - b @ ri[:, :n]
        h = np.block([[ac, -b @ ri[:, n:]],
                      [-(q - s @ ri[:, :n]), -ac.T]])
        return np.min(np.abs(np.linalg.eigvals(h).real))
    M = np.block([[a, z((n, n)), b], [-q, np.eye(n), -s],
                  [s.T, z((m, n)), r]])
    N = np.block([[np.eye(n), z((n, n)), z((n, m))],
                  [z((n, n)), a.T, z((n, m))],
                  [z((m, n)), -b.T, z((m, m))]])
    w = sl.eig(M, N, right=False, homogeneous_eigvals=True)
    fin = np.abs(w[1]) > 1e-10*np.abs(w[0])
    return np.min(np.abs(np.abs(w[0][fin]/w[1][fin]) - 1))


def given(rng, v):
    """The ways a weight can be handed in."""
    u = rng.random()
    if v.size == 1 and u < .3:
        return float(v[0, 0])
    if np.all(v == np.round(v)) and u < .4:
        return v.astype(int)
    return v.tolist() if u < .6 else v.copy()


def regulator(rng, mon):
    on = gen.pick(rng, ('state', 'output', 'default'))
    if on == 'output':
        x = gen.model(rng, gain=0., nmax=4) if rng.random() < .5 \
            else gen.ss(rng, gain=0., nmax=4, sparse=0.)
    else:
        x = gen.ss(rng, gain=0., nmax=5) if rng.random() < .8 else \
            gen.tf(rng, gain=0., hi=2, maxdeg=2)
    G = mon.result('build', x.build, rng)
    T = G if isinstance(x, gen.SS) else transfer_to_state(G)
    if T._isgain or T.NumberOfStates > 8:
        raise Skip('gain or too large')
    a, b, c, d = (np.array(v, float) for v in T.matrices)
    dt = x.dt
    n, (p, m) = len(a), d.shape
    cross = rng.random() < .5
    q, s, r = joint(rng, p if on == 'output' else n, m, cross)
    defr = not cross and rng.random() < .3
    if defr:
        r = np.eye(m)
    if on == 'output':
        C = np.block([[c, d], [np.zeros((m, n)), np.eye(m)]])
        F = C.T @ np.block([[q, s], [s.T, r]]) @ C
        qq, ss, rr = F[:n, :n], F[:n, n:], F[n:, n:]
    else:
        qq, ss, rr = q, s, r
    if np.linalg.cond(rr) > 1e4 or np.linalg.norm(a) > 1e3:
        raise Skip('badly scaled')
    # SciPy balances the pencil, rounding residue then becomes data
    for v in (a, b, qq, ss):
        if np.any((v != 0) & (np.abs(v) < 1e-9)):
            raise Skip('rounding residue in the data')
    if margin(a, b, qq, ss, rr, dt) < 1e-3:
        raise Skip('no margin')
    # uncontrollable unstable modes
    for v in np.linalg.eigvals(a):
        if (v.real > -1e-3 if dt is None else abs(v) > 1 - 1e-3) and \
                np.linalg.svd(np.c_[a - v*np.eye(n), b],
                              compute_uv=False)[-1] < 1e-2:
            raise Skip('not stabilizable')
    kw = {}
    if on != 'default':
        kw['weight_on'] = on if rng.random() < .7 else \
            gen.pick(rng, (on.upper(), on.capitalize()))
    args = [given(rng, q)]
    if not defr:
        args.append(given(rng, r))
    if cross:
        kw['S'] = given(rng, s)
    key = f'{"c" if dt is None else "d"}:{on}' + (':S' if cross else '')
    res = mon.result('lqr', lqr, G, *args, key=key, **kw)
    mon.check(isinstance(res, tuple) and len(res) == 3, key + ':tuple',
              'not three results')
    K, X, ev = (np.asarray(v) for v in res)
    mon.check(K.shape == (m, n) and X.shape == (n, n) and ev.shape == (n,),
              key + ':shape', f'{K.shape} {X.shape} {ev.shape}')
    data = dict(raw=x.raw(), q=q, r=r, s=s)
    nx = np.linalg.norm(X)
    if nx*np.linalg.norm(np.linalg.pinv(X)) > 1e9 and nx > 1e6:
        raise Skip('ill conditioned')
    mon.close(X, X.T, key + ':symmetric', rtol=1e-7, scale=nx, **data)
    if dt is None:
        h = b.T @ X + ss.T
        res = a.T @ X + X @ a - h.T @ np.linalg.solve(rr, h) + qq
        want = np.linalg.solve(rr, h)
        scale = 2*np.linalg.norm(a)*nx + np.linalg.norm(h)**2 * \
            np.linalg.norm(np.linalg.inv(rr)) + np.linalg.norm(qq)
    else:
        rb = rr + b.T @ X @ b
        h = b.T @ X @ a + ss.T
        want = np.linalg.solve(rb, h)
        res = a.T @ X @ a - X - h.T @ want + qq
        scale = np.linalg.norm(a)**2*nx + nx + np.linalg.norm(qq) + \
            np.linalg.norm(h)*np.linalg.norm(want)
    mon.close(res, 0*res, key + ':riccati', rtol=1e-7, scale=scale, **data)
    mon.close(K, want, key + ':gain', rtol=1e-6, atol=1e-9,
              scale=np.linalg.norm(want) + 1e-3*nx, **data)
    cl = np.linalg.eigvals(a - b @ K)
    r0 = max(1., np.max(np.abs(cl)))
    mon.close(np.poly(ev/r0), np.poly(cl/r0), key + ':eigs', rtol=1e-6,
              scale=1., **data)
    ok = np.max(ev.real) < 0 if dt is None else np.max(np.abs(ev)) < 1
    mon.check(ok, key + ':stable', 'closed loop is not stable', eigs=ev,
              **data)
    mon.nontrivial(x.raw(), q, r, s, on,
                   bucket=(on, dt is None, x.shape, n, cross, defr),
                   sample={'weight_on': on, 'n': n, 'shape': x.shape,
                           'cross': cross})


def refused(rng, mon):
    what = gen.pick(rng, ('gain', 'on', 'q', 'r', 's', 'qsym', 'type'))
    x = gen.ss(rng, gain=0.) if what != 'gain' else gen.model(
        rng, gain=1.)
    G = mon.result('build', x.build, rng)
    p, m = x.shape
    out = rng.random() < .5
    n = p if out else (x.n if isinstance(x, gen.SS) else 2)
    kw = {'weight_on': 'output' if out else 'state'}
    q, r, s = np.eye(n), np.eye(m), None
    if what == 'on':
        kw['weight_on'] = gen.pick(rng, ('states', '', 'tate', 'out', ', ',
                                         'input', 'te, ou'))
    elif what == 'q':
        q = np.eye(n+1)
    elif what == 'r':
        r = np.eye(m+1)
    elif what == 's':
        s = np.ones((n+1, m))*.1
    elif what == 'qsym':
        q = np.eye(n)[:-1] if rng.random() < .5 else np.ones((n, n+1))
    elif what == 'type':
        G = gen.pick(rng, (np.eye(2), 3., None))
    mon.rejected('lqr', lambda: lqr(G, q, r, s, **kw), exc=REFUSE,
                 key=f'refused:{what}')
    mon.nontrivial(what, x.raw(), str(kw), bucket=(what, out))


WORKLOADS = [Workload('regulator', regulator, 10000),
             Workload('refused', refused, 1200)]
