"""Polynomial arithmetic."""
from collections import Counter
from fractions import Fraction

import numpy as np
from harold import (haroldcompanion, haroldgcd, haroldlcm, haroldpoly,
                    haroldpolyadd, haroldpolydiv, haroldpolymul)

from .. import gen
from ..core import Skip, Workload

ID = 'C25'
RULE = ('distinct lists of polynomials whose sum, product, quotient, common '
        'divisor or multiple, roots or companion matrix was compared with '
        'exact rational arithmetic')
ASSUMPTIONS = ['common divisors and multiples: factors have small integer '
               'coefficients (scaled by a power of two in the variable) and '
               'the multiple has degree 10 at most',
               'multipliers belong to the monic versions of the arguments, '
               'as the addition of transfer functions relies on']


# exact polynomials are lists of Fractions, highest power first
def exact(x):
    p = [Fraction(float(v)) for v in np.ravel(x)]
    while p and p[0] == 0:
        p.pop(0)
    return p


def mul(p, q):
    if not p or not q:
        return []
    out = [Fraction(0)]*(len(p) + len(q) - 1)
    for i, u in enumerate(p):
        for j, v in enumerate(q):
            out[i+j] += u*v
    return out


def add(*ps):
    n = max(map(len, ps))
    out = [sum((p[len(p) - n + i] for p in ps if len(p) - n + i >= 0),
               Fraction(0)) for i in range(n)]
    while out and out[0] == 0:
        out.pop(0)
    return out


def divmod_(p, q):
    p = list(p)
    out = []
    while len(p) >= len(q):
        f = p[0]/q[0]
        out.append(f)
        for i, v in enumerate(q):
            p[i] -= f*v
        p.pop(0)
    while p and p[0] == 0:
        p.pop(0)
    return out, p


def floats(p):
    return np.array([float(v) for v in p])


def same(mon, x, want, key, rtol=1e-12, absum=None, **data):
    """x is the polynomial want up to leading zeros."""
    x = np.asarray(x)
    mon.check(x.ndim == 1, key + ':kind', f'{x!r}', **data)
    if np.iscomplexobj(x):
        mon.check(not np.any(np.abs(x.imag) > 1e-12*np.max(np.abs(x))),
                  key + ':real', f'{x}', **data)
        x = x.real
    n = max(len(x), len(want))
    w = floats(want)
    s = np.max(np.abs(w), initial=0.) if absum is None else absum
    mon.close(np.r_[np.zeros(n - len(x)), x], np.r_[np.zeros(n - len(w)), w],
              key, rtol=rtol, scale=s, atol=1e-300, result=x, **data)


def rand(rng, zero=.05):
    """Coefficients in an unusual container, possibly with leading zeros."""
    n = int(gen.pick(rng, (1, 1, 2, 2, 3, 3, 4, 5, 8)))
    u = rng.random()
    if u < zero:
        p = np.zeros(n)
    elif u < .6:
        p = rng.integers(-9, 10, n)*1.
    else:
        p = rng.integers(-64, 65, n)/2.**rng.integers(0, 8)
    if p[0] == 0 and rng.random() < .7 and u >= zero:
        p[0] = 1.
    if rng.random() < .25:
        p = np.r_[np.zeros(int(rng.integers(1, 4))), p]
    if rng.random() < .15:
        p = np.r_[p, np.zeros(int(rng.integers(1, 3)))]
    return p


def size(rng):
    return 2.**rng.integers(-50, 51) if rng.random() < .15 else 1.


def dress(rng, p):
    u = rng.random()
    whole = np.all(p == np.round(p)) and np.max(np.abs(p)) < 2**31
    if u < .5:
        return p.copy()
    if u < .65 and whole:
        return p.astype(int)
    if u < .8 and whole:
        return [int(v) for v in p]
    return p.tolist()


def sums(rng, mon):
    ps = [rand(rng) for _ in range(int(rng.integers(1, 5)))]
    if rng.random() < .3:
        # cancellation of the leading terms
        k = int(rng.integers(0, len(ps[0]) + 1))
        ps.append(-np.r_[ps[0][:k], np.zeros(len(ps[0]) - k)])
        if k == 0 and rng.random() < .5:
            ps[-1] = -ps[0]
    f = size(rng)
    ps = [p*f for p in ps]
    trim = bool(rng.random() < .6)
    kw = {} if trim and rng.random() < .5 else {'trim_zeros': trim}
    out = mon.result('haroldpolyadd', haroldpolyadd,
                     *[dress(rng, p) for p in ps], key='sum', **kw)
    want = add(*map(exact, ps))
    s = max(np.max(np.abs(p)) for p in ps)
    same(mon, out, want, 'sum', absum=s, args=ps, trim=trim)
    if trim:
        mon.check(len(out) == max(len(want), 1), 'sum:trimmed',
                  f'{out} has leading zeros', args=ps)
    else:
        mon.check(len(out) == max(map(len, ps)), 'sum:length',
                  f'{out} was trimmed', args=ps)
    mon.nontrivial(ps, trim, bucket=('sum', len(ps), len(want), trim))


def products(rng, mon):
    ps = [rand(rng)*size(rng) for _ in range(int(rng.integers(1, 5)))]
    trim = bool(rng.random() < .6)
    kw = {} if trim and rng.random() < .5 else {'trim_zeros': trim}
    out = mon.result('haroldpolymul', haroldpolymul,
                     *[dress(rng, p) for p in ps], key='product', **kw)
    want = exact([1])
    s = 1.
    for p in ps:
        want = mul(want, exact(p))
        s *= np.sum(np.abs(p))
    same(mon, out, want, 'product', absum=s, args=ps, trim=trim)
    if trim:
        mon.check(len(out) == max(len(want), 1), 'product:trimmed',
                  f'{out} has leading zeros', args=ps)
    mon.nontrivial(ps, trim, bucket=('product', len(ps), len(want), trim))


def quotients(rng, mon):
    p, q = rand(rng)*size(rng), rand(rng, zero=0)*size(rng)
    if not np.any(q):
        q[-1] = 2.
    if rng.random() < .4:
        # exact division
        p = np.convolve(p, rng.integers(-3, 4, int(rng.integers(1, 4))))
        p = np.convolve(p, q) if rng.random() < .7 else p
    P, Q = exact(p), exact(q)
    f, r = divmod_(P, Q)
    # rounding errors are amplified by the expansion of 1/divisor
    h = np.zeros(max(len(f), 1))
    w = floats(Q)
    for i in range(len(h)):
        h[i] = ((i == 0) - sum(w[j]*h[i-j] for j in range(
            1, min(i+1, len(w)))))/w[0]
    amp = np.sum(np.abs(h))*np.sum(np.abs(w))
    s = np.max(np.abs(p)) + max([0.] + [abs(float(v)) for v in f])*np.max(
        np.abs(q))
    if amp > 1e7:
        raise Skip('ill conditioned division')
    out = mon.result('haroldpolydiv', haroldpolydiv, dress(rng, p),
                     dress(rng, q), key='quotient')
    mon.check(isinstance(out, tuple) and len(out) == 2, 'quotient:len', '')
    data = dict(dividend=p, divisor=q)
    same(mon, out[0], f, 'quotient:factor', 1e-13,
         absum=amp*s/np.abs(float(Q[0])), **data)
    same(mon, out[1], r, 'quotient:remainder', 1e-13, absum=amp*s, **data)
    mon.check(len(out[1]) < len(Q), 'quotient:degree',
              'the remainder has too large degree', remainder=out[1], **data)
    mon.nontrivial(p, q, bucket=('quotient', len(P), len(Q), bool(r)))


def factor(rng, hi):
    if rng.random() < .6:
        return 1, int(rng.integers(-hi, hi+1))
    while True:
        b, c = int(rng.integers(-hi, hi+1)), int(rng.integers(1, 2*hi+1))
        if b*b < 4*c:
            return 1, b, c


def expand(c):
    p = np.array([1.])
    for f, k in c.items():
        for _ in range(k):
            p = np.convolve(p, f)
    return p


def family(rng):
    """Polynomials with some factors in common, as multisets."""
    hi = int(gen.pick(rng, (2, 3)))
    pool = [factor(rng, hi) for _ in range(int(rng.integers(1, 5)))]
    while True:
        cs = [Counter(pool[i] for i in rng.integers(
            0, len(pool), int(gen.pick(rng, (0, 1, 1, 2, 2, 3)))))
            for _ in range(int(gen.pick(rng, (2, 2, 3, 3, 4))))]
        if rng.random() < .1:
            cs.append(cs[0].copy())
        if rng.random() < .05:
            cs = cs[:1]
        low = cs[0]
        top = cs[0]
        for c in cs[1:]:
            low, top = low & c, top | c
        if len(expand(top)) <= 11:
            return cs, low, top


def scaled(p, h):
    return p*h**np.arange(len(p))


def given(rng, cs, h):
    out = []
    for c in cs:
        p = scaled(expand(c), h)
        if rng.random() < .5:
            p = p*gen.pick(rng, (2., -1., .5, 3., 1e-9, 1e9))
        if rng.random() < .15:
            p = np.r_[np.zeros(int(rng.integers(1, 3))), p]
        out.append(p)
    return out


def divisors(rng, mon):
    cs, low, _ = family(rng)
    h = gen.pick(rng, (1., 1., 1., 2., .5, 2.**-12, 2.**-7, 2.**6, 2.**11))
    ps = given(rng, cs, h)
    zero = rng.random() < .1
    if zero:
        ps.insert(int(rng.integers(0, len(ps)+1)),
                  np.zeros(int(rng.integers(1, 3))))
    x = mon.result('haroldgcd', haroldgcd, *[dress(rng, p) for p in ps],
                   key='gcd')
    want = scaled(expand(low), h)
    x = np.asarray(x)
    data = dict(args=ps, divisor=x, wanted=want)
    mon.check(x.ndim == 1 and x.size == want.size, 'gcd:degree',
              f'degree {x.size - 1} instead of {want.size - 1}', **data)
    if len(cs) == 1:
        # may be returned as it is
        x = x/x[0]
    x, want = scaled(x, 1/h), scaled(want, 1/h)
    mon.close(x, want, 'gcd:value', rtol=1e-8,
              scale=np.max(np.abs(want)), **data)
    mon.nontrivial(ps, bucket=('gcd', len(ps), want.size, bool(zero),
                               tuple(sorted(len(p) for p in ps))),
                   sample={'args': [p.tolist() for p in ps],
                           'gcd': want.tolist()})


def multiples(rng, mon):
    cs, _, top = family(rng)
    h = 2.**int(gen.pick(rng, (0, 0, 0, 1, -1, 4, 8, 12, -4, -8)))
    ps = given(rng, cs, h)
    want = scaled(expand(top), h)
    withm = bool(rng.random() < .7)
    kw = {} if withm and rng.random() < .6 else {'compute_multipliers': withm}
    if rng.random() < .15:
        kw['cleanup_threshold'] = 0.
    args = [dress(rng, p) for p in ps]
    for i, p in enumerate(ps):
        if len(p) == 1 and rng.random() < .4:
            args[i] = float(p[0])
    out = mon.result('haroldlcm', haroldlcm, *args, key='lcm', **kw)
    mults = None
    if withm:
        mon.check(isinstance(out, tuple) and len(out) == 2, 'lcm:len', '',
                  args=ps)
        out, mults = out
    out = np.asarray(out)
    data = dict(args=ps, lcm=out, wanted=want, multipliers=mults)
    mon.check(out.ndim == 1 and out.size == want.size, 'lcm:degree',
              f'degree {out.size - 1} instead of {want.size - 1}', **data)
    # compare in the variable with roots of comparable size
    mon.close(scaled(out, 1/h), scaled(want, 1/h), 'lcm:value', rtol=1e-6,
              scale=np.max(np.abs(scaled(want, 1/h))), **data)
    if mults is not None:
        mon.check(len(mults) == len(ps), 'lcm:count',
                  f'{len(mults)} multipliers', **data)
        for m, c in zip(mults, cs):
            w = expand(top - c)
            m = np.asarray(m, dtype=float)
            if kw.get('cleanup_threshold') == 0.:
                # leading rounding errors stay
                mon.check(m.size >= w.size, 'lcm:mult-degree', f'{m}', **data)
                k = m.size - w.size
                m = scaled(m, 1/h)*h**k
                mon.close(m[:k], 0*m[:k], 'lcm:mult-lead', rtol=1e-6,
                          scale=np.max(np.abs(w)), **data)
                m = m[k:]
            else:
                m = scaled(m, 1/h)
            mon.check(m.size == w.size, 'lcm:mult-degree',
                      f'{m} instead of {w}', **data)
            mon.close(m, w, 'lcm:multiplier', rtol=1e-6,
                      scale=np.max(np.abs(w)), **data)
    mon.nontrivial(ps, bucket=('lcm', len(ps), want.size, np.log2(h), withm),
                   sample={'args': [p.tolist() for p in ps],
                           'lcm': want.tolist()})


def expansion(rng, mon):
    rs = []
    for _ in range(int(rng.integers(0, 7))):
        if rng.random() < .5:
            rs.append(complex(rng.integers(-16, 17)/4.))
        else:
            z = complex(*rng.integers(-16, 17, 2)/4.)
            rs.extend([z, z.conjugate()])
    rs = [rs[i] for i in rng.permutation(len(rs))]
    real = all(z.imag == 0 for z in rs)
    if rng.random() < .2 and rs:
        rs = rs[:int(rng.integers(1, len(rs)+1))]
        real = all(z.imag == 0 for z in rs)
    vals = [z.real for z in rs] if real else rs
    how = gen.pick(rng, ('list', 'array', 'tuple', 'iterator'))
    arg = {'list': list, 'array': np.array, 'tuple': tuple,
           'iterator': iter}[how](vals)
    out = mon.result('haroldpoly', haroldpoly, arg, key='poly:' + how)
    re, im = [Fraction(1)], [Fraction(0)]
    for z in rs:
        u, v = Fraction(z.real), Fraction(z.imag)
        # (re + i im)(s - u - i v)
        r = [a - b for a, b in zip(re + [0], [0] + [
            u*x - v*y for x, y in zip(re, im)])]
        i = [a - b for a, b in zip(im + [0], [0] + [
            u*y + v*x for x, y in zip(re, im)])]
        re, im = r, i
    want = floats(re) + 1j*floats(im)
    out = np.asarray(out)
    mon.check(out.shape == want.shape, 'poly:degree', f'{out}', roots=rs)
    s = np.prod([1 + abs(z) for z in rs])
    mon.close(out, want, 'poly:value', rtol=1e-13, scale=s, roots=rs)
    mon.nontrivial(rs, bucket=('poly', len(rs), how, real))


def companion(rng, mon):
    p = rand(rng, zero=0)
    if not np.any(p):
        p[-1] = 3.
    P = exact(p)
    arg = dress(rng, p)
    out = np.asarray(mon.result('haroldcompanion', haroldcompanion, arg,
                                key='companion'))
    n = len(P) - 1
    data = dict(coefficients=p, matrix=out)
    if n == 0:
        mon.check(out.size == 0, 'companion:constant', f'{out}', **data)
    else:
        want = np.zeros((n, n))
        want[:-1, 1:] = np.eye(n-1)
        want[-1] = [-float(v/P[0]) for v in P[:0:-1]]
        mon.check(out.shape == (n, n), 'companion:shape', f'{out.shape}',
                  **data)
        mon.close(out, want, 'companion:value', rtol=1e-13,
                  scale=np.abs(want) + 1e-300, **data)
    mon.nontrivial(p, bucket=('companion', n, type(arg).__name__))


def refused(rng, mon):
    u = rng.integers(4)
    p = [1., 3., 2.]
    if u == 0:
        mon.rejected('haroldlcm', haroldlcm, p, [p, p], exc=ValueError,
                     key='lcm 2D')
    elif u == 1:
        mon.rejected('haroldlcm', haroldlcm, p, [], exc=ValueError,
                     key='lcm empty')
    elif u == 2:
        mon.rejected('haroldgcd', haroldgcd, p, [p, p], exc=ValueError,
                     key='gcd 2D')
    else:
        mon.rejected('haroldcompanion', haroldcompanion, 'abc',
                     exc=TypeError, key='companion type')
    mon.nontrivial(int(u), bucket=('refused', int(u)))


WORKLOADS = [Workload('sums', sums, 4000), Workload('products', products,
                                                    4000),
             Workload('quotients', quotients, 4000),
             Workload('divisors', divisors, 5000),
             Workload('multiples', multiples, 6000),
             Workload('expansion', expansion, 1500),
             Workload('companion', companion, 1500),
             Workload('refused', refused, 40, need=0)]
