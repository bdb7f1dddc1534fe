"""Minimal realizations."""
import numpy as np
from harold import State, Transfer, minimal_realization

from .. import gen, oracle
from ..core import Skip, Workload

ID = 'C21'
RULE = ('distinct models with hidden modes or common factors planted at known '
        'places whose minimal realization was compared with the original')
ASSUMPTIONS = ['the planted hidden modes are exact up to rounding, the rest '
               'is minimal with a margin of 1e-2',
               'factors of transfer functions are at most double and '
               'different factors are 1/16 apart']


def margins(a, b):
    """Distances of the pair (a, b) from loosing controllability."""
    n = len(a)
    if n == 0:
        return [1., 1.]
    k = np.hstack([np.linalg.matrix_power(a/4, i) @ b for i in range(n)])
    g = [np.linalg.svd(np.hstack([a - v*np.eye(n), b]),
                       compute_uv=False)[-1] for v in np.linalg.eigvals(a)]
    return [np.linalg.svd(k, compute_uv=False)[-1], min(g)]


def core(rng, n, dt, p, m):
    """A minimal system, well away from loosing minimality."""
    if n == 0:
        return np.zeros((0, 0)), np.zeros((0, m)), np.zeros((p, 0))
    for _ in range(40):
        x = gen.ss(rng, dt=dt, shp=(p, m), n=n, repeat=.1)
        a, b, c = x.a, x.b, x.c
        if np.linalg.norm(a, 2) > 30:
            continue
        k, g = np.minimum(margins(a, b), margins(a.T, c.T))
        if k > 1e-3 and g > 2e-2:
            return a, b, c
    raise Skip('no minimal core found')


def hidden(rng, dt, k, kind):
    if k == 0:
        return np.zeros((0, 0))
    return gen.a_matrix(rng, k, dt, 'any', .2,
                        kind if k > 1 else 'diag')[0]


def planted(rng, dt):
    """The Kalman canonical structure with random couplings."""
    p, m = gen.shape(rng)
    n = int(gen.pick(rng, (0, 1, 1, 2, 2, 3, 4)))
    k = rng.integers(0, 3, 3)
    if n + k.sum() == 0:
        n = 1
    if n + k.sum() > 6:
        k = np.minimum(k, 1)
    a, b, c = core(rng, n, dt, p, m)
    parts = [hidden(rng, dt, int(v), gen.pick(rng, ('diag', 'orth', 'tri')))
             for v in k]
    # order: c and not o | c and o | neither | o and not c
    sizes = [int(k[0]), n, int(k[1]), int(k[2])]
    blocks = [parts[0], a, parts[1], parts[2]]
    e = np.cumsum([0] + sizes)
    sl = [slice(e[i], e[i+1]) for i in range(4)]
    N = e[-1]
    A, B, C = np.zeros((N, N)), np.zeros((N, m)), np.zeros((p, N))
    for i in range(4):
        A[sl[i], sl[i]] = blocks[i]

    def rnd(r, q):
        return gen.matrix(rng, r, q, .3)
    # couplings that leave the structure alone
    for i, j in ((0, 1), (0, 2), (0, 3), (1, 3), (2, 3)):
        if rng.random() < .7:
            A[sl[i], sl[j]] = rnd(sizes[i], sizes[j])
    B[sl[0]], B[sl[1]] = rnd(sizes[0], m), b
    C[:, sl[1]], C[:, sl[3]] = c, rnd(p, sizes[3])
    # rounding errors grow with the inverse of these; the states of the first
    # and last part are not really there if they are too weakly connected
    ct, ob = slice(0, e[2]), np.r_[e[1]:e[2], e[3]:e[4]]
    s, g = np.minimum(margins(A[ct, ct], B[ct]),
                      margins(A[np.ix_(ob, ob)].T, C[:, ob].T))
    if s < 1e-3 or g < 2e-2:
        return planted(rng, dt)
    u = rng.random()
    if u < .2:
        T = np.eye(N)
    elif u < .4:
        T = np.eye(N)[rng.permutation(N)]
    elif u < .8:
        T = gen.orth(rng, N)
    else:
        T = gen.similarity(rng, N)
    A, B, C = np.linalg.solve(T, A @ T), np.linalg.solve(T, B), C @ T
    D = gen.matrix(rng, p, m) if rng.random() < .6 else np.zeros((p, m))
    return gen.SS(A, B, C, D, dt, [str(int(n > 0)) + ''.join(
        str(min(1, int(v))) for v in k)]), n, (a, b, c)


def state(rng, mon):
    dt = gen.some_dt(rng)
    x, n, (a, b, c) = planted(rng, dt)
    G = mon.result('build', x.build, rng)
    H = mon.result('minimal_realization', minimal_realization, G,
                   key='state')
    data = dict(model=G, minimal=H, order=n)
    mon.check(type(H) is State and H.shape == x.shape and
              H.SamplingPeriod == x.dt, 'state:kind',
              f'{type(H).__name__} {H.shape} {H.SamplingPeriod}', **data)
    mon.check(H.NumberOfStates == n, 'state:order',
              f'{H.NumberOfStates} states left instead of {n}', **data)
    pts = oracle.points(rng, np.r_[x.poles(), oracle.model_poles(H)], 5, dt)
    want = oracle.ss_eval(a, b, c, x.d, pts)
    mon.close(oracle.model_eval(H, pts), want, 'state:value', rtol=1e-5,
              scale=np.max(np.abs(want)) + np.linalg.norm(x.b)*0 + 1e-3,
              **data)
    mon.nontrivial(x.raw(), bucket=('state', x.shape, n, x.tags[0],
                                    dt is None),
                   sample={'states': x.n, 'degree': n, 'shape': x.shape})


def separate(pool, r, gap=1/16):
    return all(abs(r - q) >= gap and abs(np.conj(r) - q) >= gap for q in pool)


def distinct(rng, dt, k):
    """k distinct factors, at least 1/16 apart (relative for large ones)."""
    out = []
    while len(out) < k:
        r = gen.complex_root(rng, dt, 'any') if rng.random() < .35 else \
            gen.real_root(rng, dt, 'any')
        if separate(out, r):
            out.append(r)
    return out


def entry(rng, dt, top=5):
    """num, den, reduced num, reduced den; factors at most double."""
    if rng.random() < .07:
        den = gen.poly(distinct(rng, dt, int(rng.integers(1, 3))))
        return np.array([0.]), den, np.array([0.]), np.array([1.])
    k = int(rng.integers(1, top))
    fac = distinct(rng, dt, k)
    mult = []
    for _ in fac:
        mult.append(gen.pick(rng, ((1, 1), (1, 1), (0, 1), (0, 1), (1, 0),
                                   (1, 2), (2, 1), (2, 2), (0, 2), (2, 0))))
    num = [f for f, (a, b) in zip(fac, mult) for _ in range(a)]
    den = [f for f, (a, b) in zip(fac, mult) for _ in range(b)]
    size = (lambda fs: sum(2 if isinstance(f, complex) else 1 for f in fs))
    if size(den) > 7:
        return entry(rng, dt, top)
    while size(num) > size(den):
        num.pop()
    for fs in (num, den):
        if oracle.same_multiset(np.roots(gen.poly(fs)), gen.expand(fs),
                                0) > 2e-7:
            return entry(rng, dt, top)
    rn = [f for f in fac for _ in range(max(0, num.count(f) - den.count(f)))]
    rd = [f for f in fac for _ in range(max(0, den.count(f) - num.count(f)))]
    g, h = gen.lead(rng), gen.lead(rng)
    return (g*gen.poly(num), h*gen.poly(den), g/h*gen.poly(rn), gen.poly(rd))


def transfer(rng, mon):
    dt = gen.some_dt(rng)
    p, m = gen.shape(rng, kinds=('siso', 'siso', 'simo', 'miso', 'square',
                                 'tall'))
    e = [[entry(rng, dt, 5 if p*m == 1 else 4) for _ in range(m)]
         for _ in range(p)]
    x = gen.TF(*[[[v[k] for v in r] for r in e] for k in (0, 1)], dt)
    red = gen.TF(*[[[v[k] for v in r] for r in e] for k in (2, 3)], dt)
    G = mon.result('build', x.build, rng)
    H = mon.result('minimal_realization', minimal_realization, G,
                   key='transfer')
    data = dict(model=G, minimal=H)
    mon.check(type(H) is Transfer and H.shape == x.shape and
              H.SamplingPeriod == x.dt, 'transfer:kind',
              f'{type(H).__name__} {H.shape} {H.SamplingPeriod}', **data)
    hn, hd = oracle.parts(H)
    for i in range(p):
        for j in range(m):
            u = np.trim_zeros(np.asarray(hn[i][j]).ravel(), 'f').size
            v = np.asarray(hd[i][j]).size
            if not np.any(x.num[i][j]):
                mon.check(not np.any(hn[i][j]), 'transfer:zero',
                          'a zero entry became nonzero', **data)
                continue
            mon.check((u, v) == (red.num[i][j].size, red.den[i][j].size),
                      'transfer:order',
                      f'entry {i, j} has degrees {u-1, v-1} instead of '
                      f'{red.num[i][j].size-1, red.den[i][j].size-1}', **data)
    pts = oracle.points(rng, x.poles(), 5, dt)
    want = red.at(pts)
    mon.close(oracle.model_eval(H, pts), want, 'transfer:value', rtol=1e-5,
              scale=np.abs(want) + np.max(np.abs(want), initial=1e-9)*1e-3,
              **data)
    mon.nontrivial(x.raw(), bucket=('transfer', x.shape, dt is None,
                                    tuple(sorted((len(b[1]), len(b[3]))
                                          for r in e for b in r))),
                   sample={'shape': x.shape, 'degrees':
                           [[(len(v[1])-1, len(v[3])-1) for v in r]
                            for r in e]})


def gains(rng, mon):
    dt = gen.some_dt(rng)
    x = gen.model(rng, dt=dt, gain=1.)
    G = mon.result('build', x.build, rng)
    H = mon.result('minimal_realization', minimal_realization, G, key='gain')
    mon.check(type(H) is type(G) and H.shape == x.shape and
              H.SamplingPeriod == dt and H._isgain, 'gain:kind',
              f'{type(H).__name__} {H.shape} {H.SamplingPeriod}', model=G)
    want = x.at(np.array([2.]))[0].real
    mon.close(np.asarray(H.to_array()).reshape(want.shape), want,
              'gain:value', rtol=1e-12, atol=1e-14, model=G)
    mon.nontrivial(x.raw(), bucket=('gain', type(x).__name__, x.shape,
                                    dt is None))


def tolerance(rng, mon):
    """tol decides what counts as a cancellation."""
    dt = gen.some_dt(rng)
    gap = 2.**-int(rng.integers(10, 17))
    wide = rng.random() < .5
    tol = gap*4 if wide else gap/64
    u = rng.random()
    if u < .5:
        f = distinct(rng, dt, int(rng.integers(2, 5)))
        near = f[0] - gap
        num, den = gen.poly([near]), gen.poly(f)
        if len(num) > len(den):
            raise Skip('improper')
        G = Transfer(num, den, dt=dt)
        H = mon.result('minimal_realization', minimal_realization, G, tol)
        n, got = len(den)-1, np.asarray(H.den).size-1
        cut = 2 if isinstance(near, complex) else 1
        what = 'transfer'
    else:
        k = int(rng.integers(1, 4))
        a = np.diag(np.r_[gen.real_root(rng, dt, 'any'),
                          np.zeros(k)])
        vals = []
        while len(vals) < k+1:
            r = gen.real_root(rng, dt, 'any')
            if all(abs(r-v) >= .25 for v in vals):
                vals.append(r)
        a = np.diag(vals)
        b, c = np.ones((k+1, 1)), np.ones((1, k+1))
        (b if rng.random() < .5 else c.T)[int(rng.integers(k+1))] = gap/2**14
        q = gen.orth(rng, k+1) if rng.random() < .5 else np.eye(k+1)
        G = State(q @ a @ q.T, q @ b, c @ q.T, 0., dt)
        # the distance to rank loss is at most the weight of the weak mode
        # and, for these spectra, not much less; it is only estimated
        weak = gap/2**14
        tol = weak*1e5 if wide else weak/400
        H = mon.result('minimal_realization', minimal_realization, G, tol)
        n, got, cut, what = k+1, H.NumberOfStates, 1, 'state'
    mon.check(got == (n-cut if wide else n), f'tolerance:{what}',
              f'order {got} from {n} with gap {gap} and tol {tol}',
              model=G, minimal=H)
    mon.nontrivial(str(G.polynomials if what == 'transfer' else G.matrices),
                   gap, wide, bucket=(what, wide, n, dt is None))


WORKLOADS = [Workload('state', state, 4000),
             Workload('transfer', transfer, 4000),
             Workload('gains', gains, 300),
             Workload('tolerance', tolerance, 1500)]
