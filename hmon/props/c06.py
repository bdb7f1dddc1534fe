"""Construction of models from raw data."""
import numpy as np
from harold import State, Transfer

from .. import gen, oracle
from ..core import Skip, Workload

ID = 'C06'
RULE = ('distinct constructor arguments (data and form) whose model was '
        'compared with the data, or which were refused')

BAD = (ValueError, IndexError, TypeError)


def zeros_in_front(rng, c, p=.3):
    if rng.random() < p:
        return np.r_[np.zeros(int(rng.integers(1, 4))), c]
    return c


def form1(rng, c):
    """One polynomial in a random SISO input form."""
    forms = ['list', '1d', 'row', 'nested', 'nested1d', 'nested2d', 'col']
    if np.all(c == np.round(c)):
        forms += ['ints', 'intarr']
    if len(c) == 1:
        forms += ['scalar', 'scalar']
        if c[0] == round(c[0]):
            forms += ['intscalar']
    f = gen.pick(rng, forms)
    return f, {'list': lambda: c.tolist(), '1d': c.copy,
               'row': lambda: c[None].copy(),
               'nested': lambda: [[c.tolist()]],
               'nested1d': lambda: [[c.copy()]],
               'nested2d': lambda: [[c[None].copy()]],
               'col': lambda: c[:, None].copy(),
               'ints': lambda: [int(x) for x in c],
               'intarr': lambda: c.astype(int),
               'scalar': lambda: float(c[0]),
               'intscalar': lambda: int(c[0])}[f]()


def attrs(mon, key, G, shape, dt, gain, **data):
    p, m = shape
    mon.check(tuple(G.shape) == shape, key + ':shape', f'{G.shape}', **data)
    mon.check((G.NumberOfOutputs, G.NumberOfInputs) == shape, key + ':count',
              'channel counts', **data)
    mon.check(G.SamplingPeriod == dt, key + ':dt', f'{G.SamplingPeriod}',
              **data)
    mon.check(G.SamplingSet == ('R' if dt is None else 'Z'), key + ':set',
              f'{G.SamplingSet}', **data)
    mon.check(bool(G._isSISO) == (shape == (1, 1)), key + ':siso',
              'SISO flag', **data)
    mon.check(bool(G._isgain) == gain, key + ':gain',
              f'static gain flag {G._isgain}', got=G, **data)


def tf_data(mon, key, G, **data):
    """Stored polynomials: p x m lists of float rows, or two rows if SISO."""
    num, den = mon.result('polynomials', lambda: G.polynomials)
    for got, want in ((num, G.num), (den, G.den)):
        mon.check(got is want or type(got) is type(want),
                  key + ':polynomials', 'polynomials differ', **data)
    n, d = oracle.parts(G)
    mon.check(len(n) == len(d) == G.shape[0] and
              all(len(r) == G.shape[1] for r in list(n) + list(d)),
              key + ':entries', 'number of entries', **data)
    for i in range(G.shape[0]):
        for j in range(G.shape[1]):
            for x in (n[i][j], d[i][j]):
                mon.check(isinstance(x, np.ndarray) and x.ndim == 2 and
                          x.shape[0] == 1 and x.shape[1] > 0 and
                          x.dtype == float, key + ':entry-array',
                          'entry is not a float row', x=x, **data)
            mon.check(n[i][j].size <= d[i][j].size and d[i][j][0, 0] != 0,
                      key + ':leading', 'leading denominator coefficient is '
                      'zero or numerator longer', n=n[i][j], d=d[i][j],
                      **data)


def siso(rng, mon):
    dt = gen.some_dt(rng)
    n, d = gen.tf_entry(rng, dt, 4)
    none = None
    if rng.random() < .1:
        if rng.random() < .5:
            n, none = np.array([1.]), 'num'
        else:
            n, d, none = np.array([float(rng.integers(-5, 6))]), \
                np.array([1.]), 'den'
    n0, d0 = zeros_in_front(rng, n), zeros_in_front(rng, d)
    (f1, N), (f2, D) = form1(rng, n0), form1(rng, d0)
    if none == 'num':
        N, f1 = None, 'None'
    if none == 'den':
        D, f2 = None, 'None'
    data = dict(num=n0, den=d0, forms=[f1, f2])
    if f2 == 'None' and rng.random() < .5:
        G = mon.result('Transfer', Transfer, N, dt=dt)
    else:
        G = mon.result('Transfer', Transfer, N, D, dt)
    attrs(mon, 'siso', G, (1, 1), dt, len(d) == 1, **data)
    tf_data(mon, 'siso', G, **data)
    pts = oracle.points(rng, np.roots(d), 5, dt)
    want = oracle.horner(n, pts)/oracle.horner(d, pts)
    mon.close(oracle.model_eval(G, pts)[:, 0, 0], want, 'siso:value',
              rtol=1e-12, atol=1e-12, **data)
    mon.nontrivial(n0, d0, f1, f2, bucket=('siso', f1, f2, dt is None),
                   sample={'forms': [f1, f2], 'num': n0.tolist(),
                           'den': d0.tolist()})


def entry(rng, c):
    f = gen.pick(rng, ('list', '1d', 'row', 'scalar'))
    if f == 'scalar' and len(c) == 1:
        return float(c[0])
    if f == '1d':
        return c.copy()
    if f == 'row':
        return c[None].copy()
    return c.tolist()


def mimo(rng, mon):
    p, m = gen.shape(rng, 3, ('simo', 'miso', 'square', 'tall', 'wide'))
    dt = gen.some_dt(rng)
    how = gen.pick(rng, ('full', 'full', 'common-den', 'common-num',
                         'none-den', 'none-num', 'array', 'array-den'))
    one = np.array([1.])

    def grid(f):
        return [[f() for _ in range(m)] for _ in range(p)]
    if how == 'full':
        num, den = grid(lambda: None), grid(lambda: None)
        for i in range(p):
            for j in range(m):
                num[i][j], den[i][j] = gen.tf_entry(rng, dt, 2)
    elif how == 'common-den':
        d = gen.lead(rng)*gen.poly(gen.roots(rng, int(rng.integers(0, 4)),
                                             dt))
        den = grid(lambda: d)
        num = grid(lambda: gen.tf_entry(rng, dt, den=d)[0])
    elif how in ('common-num', 'none-num'):
        den = grid(lambda: gen.lead(rng)*gen.poly(
            gen.roots(rng, int(rng.integers(0, 3)), dt)))
        k = min(len(d) for r in den for d in r)
        n = one if how == 'none-num' else \
            gen.coeffs(rng, int(rng.integers(0, k)))
        num = grid(lambda: n)
    elif how == 'none-den':
        num = grid(lambda: np.array([float(rng.integers(-4, 5))]))
        den = grid(lambda: one)
    else:
        if min(p, m) == 1:
            p = m = 2
        g = np.round(rng.normal(size=(p, m))*3, 2)
        if how == 'array':
            num = [[np.array([x]) for x in r] for r in g]
            den = grid(lambda: one)
        else:
            den = [[np.array([x or 1.]) for x in r] for r in g]
            num = grid(lambda: np.array([float(rng.integers(-4, 5))]))
    raw = gen.TF(num, den, dt)
    zn = [[zeros_in_front(rng, x, .15) for x in r] for r in num]
    zd = [[zeros_in_front(rng, x, .15) for x in r] for r in den]
    N = [[entry(rng, x) for x in r] for r in zn]
    D = [[entry(rng, x) for x in r] for r in zd]
    f = ''
    if how == 'common-den':
        f, D = form1(rng, zeros_in_front(rng, den[0][0], .15))
    if how == 'common-num':
        f, N = form1(rng, zeros_in_front(rng, num[0][0], .15))
    if how == 'none-num':
        N = None
    if how == 'none-den':
        N, D = [[float(x[0]) for x in r] for r in num], None
    if how == 'array':
        N = np.array([[x[0] for x in r] for r in num])
        D = None if rng.random() < .5 else 1.
    if how == 'array-den':
        D = np.array([[x[0] for x in r] for r in den])
        if rng.random() < .5:
            N = np.array([[x[0] for x in r] for r in num])
    data = dict(num=num, den=den, how=[how, f], given=[N, D])
    G = mon.result('Transfer', Transfer, N, D, dt)
    attrs(mon, 'mimo:' + how, G, (p, m), dt,
          all(len(d) == 1 for r in den for d in r), **data)
    tf_data(mon, 'mimo:' + how, G, **data)
    pts = oracle.points(rng, raw.poles(), 4, dt)
    mon.close(oracle.model_eval(G, pts), raw.at(pts), 'mimo:value:' + how,
              rtol=1e-12, atol=1e-12, **data)
    mon.nontrivial(num, den, how, f, zn, zd,
                   bucket=('mimo', how, f, (p, m), dt is None))


def arr(rng, x):
    """A matrix as array, list or, where possible, something shorter."""
    forms = ['arr', 'list']
    if np.all(x == np.round(x)):
        forms += ['int', 'intarr']
    if x.shape[0] == 1:
        forms += ['1d', 'list1']
    if x.size == 1:
        forms += ['scalar']
    f = gen.pick(rng, forms)
    return f, {'arr': x.copy, 'list': x.tolist,
               'int': lambda: x.astype(int).tolist(),
               'intarr': lambda: x.astype(int), '1d': lambda: x[0].copy(),
               'list1': lambda: x[0].tolist(),
               'scalar': lambda: float(x[0, 0])}[f]()


def state(rng, mon):
    raw = gen.ss(rng, nmax=4, gain=.2)
    dt, (p, m), n = raw.dt, raw.shape, raw.n
    if n == 0:
        f, D = arr(rng, raw.d)
        how = gen.pick(rng, ('first', 'last', 'kw'))
        G = {'first': lambda: mon.result('State', State, D, dt=dt),
             'last': lambda: mon.result('State', State, None, None, None, D,
                                        dt),
             'kw': lambda: mon.result('State', State, None, d=D, dt=dt)}[
                 how]()
        given = [f, how]
    else:
        (fa, A), (fb, B), (fc, C), (fd, D) = (
            arr(rng, x) for x in raw.raw()[:4])
        if m == 1 and n > 1 and rng.random() < .3:
            fb, B = '1d-column', raw.b[:, 0].tolist()
        if m == 1 and p > 1 and rng.random() < .3:
            fd, D = '1d-column', raw.d[:, 0].tolist()
        if not raw.d.any() and rng.random() < .6:
            fd, D = 'None', None
        given = [fa, fb, fc, fd]
        if fd == 'None' and rng.random() < .5:
            G = mon.result('State', State, A, B, C, dt=dt)
        else:
            G = mon.result('State', State, A, B, C, D, dt)
    attrs(mon, 'state', G, (p, m), dt, n == 0, raw=raw.raw(), given=given)
    mon.check(G.NumberOfStates == n, 'state:count', 'number of states',
              raw=raw.raw())
    mats = mon.result('matrices', lambda: G.matrices)
    for got, attr, want, name in zip(mats, (G.a, G.b, G.c, G.d),
                                     raw.raw()[:4], 'abcd'):
        if n == 0 and name != 'd':
            mon.check(np.size(got) == 0, 'state:empty', 'not empty')
            continue
        mon.check(isinstance(got, np.ndarray) and got.dtype == float and
                  got.shape == want.shape and np.array_equal(got, want) and
                  np.array_equal(attr, want), 'state:data:' + name,
                  'stored data differs', got=got, want=want, given=given)
    mon.nontrivial(raw.raw(), given, bucket=('state', tuple(given), (p, m)))


def bad_transfer(rng, mon):
    dt = gen.some_dt(rng)
    how = gen.pick(rng, ('noncausal', 'zero-den', 'ragged', 'mismatch',
                         'junk', 'dt', 'complex'))
    n, d = gen.tf_entry(rng, dt, 3, zero=0.)
    p, m = gen.shape(rng, 3, ('simo', 'miso', 'square', 'tall', 'wide'))
    num = [[[1.] for _ in range(m)] for _ in range(p)]
    den = [[[1., 2.] for _ in range(m)] for _ in range(p)]
    i, j = int(rng.integers(p)), int(rng.integers(m))
    mimo = rng.random() < .5
    f = ''
    if how == 'noncausal':
        long = gen.coeffs(rng, len(d) + int(rng.integers(0, 2)))
        if mimo:
            num[i][j] = [1., 2., 3.]
            if rng.random() < .3:
                den[i][j] = [0., 0., 1., 2.]
            args = (num, den)
            if rng.random() < .3:
                args = (num, zeros_in_front(rng, np.array([1., 2.]))
                        .tolist())
            elif rng.random() < .2:
                args = ([1., 2., 3.], den)
        else:
            f, N = form1(rng, long)
            f2, D = form1(rng, zeros_in_front(rng, d))
            f += f2
            args = (N, D)
            if rng.random() < .1:
                args = (N,)
    elif how == 'zero-den':
        z = np.zeros(int(rng.integers(1, 4)))
        if mimo:
            den[i][j] = z.tolist()
            num[i][j] = [float(rng.integers(0, 2))]
            args = (num, den)
            if rng.random() < .3:
                args = ([[1., 2.], [3., 4.]], z.tolist())
        else:
            f, D = form1(rng, z)
            args = (float(gen.pick(rng, (0., 1., 3.))), D)
    elif how == 'ragged':
        num = [[1.]*3, [1.]*2]
        args = (num, [1., 2.]) if rng.random() < .5 else (
            [[1.]*3]*2, [[[1., 2.]]*2, [[1., 2.]]*3])
    elif how == 'mismatch':
        num2 = [[[1.] for _ in range(m+1)] for _ in range(p)] \
            if rng.random() < .5 else \
            [[[1.] for _ in range(m)] for _ in range(p+1)]
        args = (num2, den)
    elif how == 'junk':
        args = gen.pick(rng, (('abc', [1., 2.]), ([1.], 'abc'),
                              (['a'], [1., 2.]), ([1.], ['1', '2']),
                              ([[['a'], [1.]]], [1., 2.]), ({}, [1., 2.]),
                              ([1.], {1: 2}), ([None], [1., 2.]),
                              (np.array(['a', 'b']), [1., 2., 3.]),
                              ([1., [2.]], [1., 2.])))
    elif how == 'complex':
        args = gen.pick(rng, (([1j], [1., 2.]), ([1.], [1., 2j, 1.]),
                              (np.array([1j]), [1., 2.]),
                              ([1.], np.array([1., 2j, 3.])),
                              ([[[1j], [1.]]], [1., 2.])))
    else:
        mon.rejected('Transfer', Transfer, n.tolist(), d.tolist(),
                     gen.pick(rng, (0, 0., -1., -.1, 'abc', [1, 2])),
                     exc=BAD, key='refuse-transfer:dt')
        mon.nontrivial('dt', n, d)
        return
    mon.rejected('Transfer', Transfer, *args, dt=dt, exc=BAD,
                 key=f'refuse-transfer:{how}:{"mimo" if mimo else "siso"}')
    mon.nontrivial('bad', repr(args), bucket=('bad', how, f, mimo))


def bad_state(rng, mon):
    raw = gen.ss(rng, nmax=4, gain=0)
    a, b, c, d, dt = raw.raw()
    n, (p, m) = raw.n, raw.shape
    how = gen.pick(rng, ('nonsquare', 'b', 'c', 'd', 'junk', 'dt', 'ragged',
                         'complex', 'shapes', 'shapes', 'shapes', 'shapes'))
    if how == 'nonsquare':
        a = np.c_[a, np.ones(n)] if rng.random() < .5 else \
            np.r_[a, np.ones((1, n))]
    elif how == 'shapes':
        # other sizes and other orders of the right sizes
        k = int(rng.integers(3))
        s = [(n, m), (p, n), (p, m)][k]
        t = s[::-1] if rng.random() < .5 else \
            tuple(int(v) for v in rng.integers(1, 5, 2))
        ok = [t[0] == n or t == (1, n), t[1] == n,
              t == s or (m == 1 and t == (1, p))][k]
        if ok:
            raise Skip('fits')
        args = [b, c, d]
        args[k] = np.round(rng.normal(size=t), 2)
        b, c, d = args
    elif how == 'b':
        b = np.r_[b, np.ones((1, m))] if n == 1 or rng.random() < .5 else \
            b[:-1]
        if b.shape == (1, n):
            b = np.r_[b, b, b][:n+1] if n > 1 else np.ones((3, m))
        if b.shape[0] == n or b.shape == (1, n):
            b = np.ones((n+2, m))
    elif how == 'c':
        c = np.c_[c, np.ones(p)]
    elif how == 'd':
        d = np.ones((p+1, m)) if rng.random() < .5 else np.ones((p, m+1))
        if d.shape == (m, p) and 1 in d.shape:
            d = np.ones((p+1, m+1))
    elif how == 'junk':
        k = int(rng.integers(4))
        args = [a, b, c, d]
        args[k] = gen.pick(rng, ('abc', {1: 2}, [['a']], {1., 2.},
                                 np.array([['x']])))
        a, b, c, d = args
    elif how == 'complex':
        k = int(rng.integers(4))
        args = [a, b, c, d]
        args[k] = args[k] + 1j
        if rng.random() < .5:
            args[k] = args[k].tolist()
        a, b, c, d = args
    elif how == 'ragged':
        a = [[1., 2.], [3.]]
        b, c, d = np.ones((2, 1)), np.ones((1, 2)), 0.
    else:
        dt = gen.pick(rng, (0, 0., -1., -.1, 'abc', [1, 2]))
    mon.rejected('State', State, a, b, c, d, dt, exc=BAD,
                 key=f'refuse-state:{how}')
    mon.nontrivial('bads', raw.raw(), how, bucket=('bads', how, (p, m)))


WORKLOADS = [Workload('siso', siso, 12000), Workload('mimo', mimo, 12000),
             Workload('state', state, 12000),
             Workload('bad_transfer', bad_transfer, 8000),
             Workload('bad_state', bad_state, 6000)]
