"""Seeded workload generators.

Raw data is kept apart from harold's own objects so that the oracles can be
computed from what the caller handed in, never from what harold stored.
Pole and zero locations sit on dyadic grids, which makes common factors
exactly common and well separated factors well separated.
"""
from dataclasses import dataclass, field

import numpy as np

from harold import State, Transfer

DTS = (0.01, 0.1, 0.25, 0.5, 1.0, 2.0, 5.0)


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def some_dt(rng, p_discrete=0.5):
    if rng.random() >= p_discrete:
        return None
    if rng.random() < 0.3:
        return float(np.round(10**rng.uniform(-3, 1), 5))
    return pick(rng, DTS)


def shape(rng, hi=3, kinds=None):
    kind = pick(rng, kinds or ('siso', 'simo', 'miso', 'square', 'tall',
                               'wide'))
    a = int(rng.integers(2, hi+1))
    b = int(rng.integers(2, hi+1))
    if kind == 'siso':
        return 1, 1
    if kind == 'simo':
        return a, 1
    if kind == 'miso':
        return 1, a
    if kind == 'square':
        return a, a
    lo, up = min(a, b), max(a, b)
    if lo == up:
        up += 1
    return (up, lo) if kind == 'tall' else (lo, up)


# -- roots and polynomials -------------------------------------------------

def real_root(rng, dt, kind):
    """kind: stable, unstable, any, integrator"""
    if kind == 'any':
        kind = pick(rng, ('stable', 'unstable', 'integrator'),
                    p=(.6, .3, .1))
    if dt is None:
        if kind == 'integrator':
            return 0.
        r = rng.integers(1, 17)/4
        return float(-r if kind == 'stable' else r)
    if kind == 'integrator':
        return 1.
    if kind == 'stable':
        return float(rng.integers(-14, 15)/16)
    return float(pick(rng, (1, -1))*rng.integers(18, 29)/16)


def complex_root(rng, dt, kind):
    if kind == 'any':
        kind = pick(rng, ('stable', 'unstable', 'integrator'),
                    p=(.6, .3, .1))
    if dt is None:
        im = rng.integers(1, 17)/4
        if kind == 'integrator':
            return complex(0., im)
        re = rng.integers(1, 13)/4
        return complex(-re if kind == 'stable' else re, im)
    while True:
        re, im = rng.integers(-22, 23)/16, rng.integers(2, 23)/16
        a = np.hypot(re, im)
        if kind == 'stable' and a < 0.92:
            return complex(re, im)
        if kind != 'stable' and 1.1 < a < 1.7:
            return complex(re, im)


def roots(rng, n, dt, kind='any', repeat=0.1):
    """n roots closed under conjugation, one representative per pair."""
    out = []
    left = n
    while left > 0:
        if out and rng.random() < repeat:
            r = pick(rng, out)
        elif left > 1 and rng.random() < 0.4:
            r = complex_root(rng, dt, kind)
        else:
            r = real_root(rng, dt, kind)
        need = 2 if isinstance(r, complex) else 1
        if need > left:
            continue
        out.append(r)
        left -= need
    return out


def expand(rts):
    out = []
    for r in rts:
        out += [r, r.conjugate()] if isinstance(r, complex) else [r]
    return np.array(out, dtype=complex)


def poly(rts):
    p = np.array([1.])
    for r in rts:
        p = np.convolve(p, [1., -2*r.real, r.real**2 + r.imag**2]
                        if isinstance(r, complex) else [1., -r])
    return p


def lead(rng):
    """A leading coefficient / gain that is not always one."""
    u = rng.random()
    if u < .4:
        return 1.
    if u < .8:
        return float(pick(rng, (-1., 2., .5, -3., 4., 10., -.25)))
    return float(np.round(rng.uniform(-4, 4), 2) or 1.)


def coeffs(rng, deg):
    """A numerator with nonzero leading coefficient."""
    u = rng.random()
    if u < .35:
        c = rng.integers(-6, 7, deg+1).astype(float)
    elif u < .5:
        c = np.zeros(deg+1)
        c[0] = 1.
        if deg:
            c[int(rng.integers(0, deg+1))] += float(rng.integers(1, 5))
    else:
        c = np.round(rng.normal(size=deg+1)*2, 3)
    if c[0] == 0:
        c[0] = 1.
    return c


@dataclass
class TF:
    """Raw transfer matrix data, p x m nested lists of 1D coefficient arrays"""
    num: list
    den: list
    dt: object
    tags: list = field(default_factory=list)

    @property
    def shape(self):
        return len(self.num), len(self.num[0])

    def poles(self):
        out = [np.roots(d) for r in self.den for d in r if len(d) > 1]
        return np.concatenate(out) if out else np.array([])

    def raw(self):
        return [self.num, self.den, self.dt]

    def at(self, pts):
        from .oracle import tf_eval
        return tf_eval(self.num, self.den, pts)

    def build(self, rng=None):
        """Hand the data to harold in one of the documented input forms."""
        p, m = self.shape
        if (p, m) == (1, 1):
            n, d = self.num[0][0], self.den[0][0]
            form = 0 if rng is None else int(rng.integers(0, 6))
            if form == 0:
                return Transfer(n.tolist(), d.tolist(), dt=self.dt)
            if form == 1:
                return Transfer(n.copy(), d.copy(), dt=self.dt)
            if form == 2:
                return Transfer(np.array([n]), np.array([d]), dt=self.dt)
            if form == 3:
                return Transfer([n.tolist()] if len(n) == 1 else n.tolist(),
                                d.tolist(), self.dt)
            if form == 4 and len(n) == 1:
                return Transfer(float(n[0]), d.tolist(), dt=self.dt)
            if form == 5 and np.all(n == np.round(n)) and \
                    np.all(d == np.round(d)):
                return Transfer([int(x) for x in n], [int(x) for x in d],
                                dt=self.dt)
            return Transfer(n.tolist(), d.copy(), dt=self.dt)
        form = 0 if rng is None else int(rng.integers(0, 3))
        if form == 0:
            return Transfer([[x.tolist() for x in r] for r in self.num],
                            [[x.tolist() for x in r] for r in self.den],
                            dt=self.dt)
        if form == 1:
            return Transfer([[x.copy() for x in r] for r in self.num],
                            [[x.copy() for x in r] for r in self.den],
                            dt=self.dt)
        return Transfer([[x[0].item() if len(x) == 1 else x.tolist()
                          for x in r] for r in self.num],
                        [[x[0].item() if len(x) == 1 else x.tolist()
                          for x in r] for r in self.den], dt=self.dt)


@dataclass
class SS:
    a: np.ndarray
    b: np.ndarray
    c: np.ndarray
    d: np.ndarray
    dt: object
    tags: list = field(default_factory=list)

    @property
    def shape(self):
        return self.d.shape

    @property
    def n(self):
        return self.a.shape[0]

    def poles(self):
        return np.linalg.eigvals(self.a) if self.n else np.array([])

    def raw(self):
        return [self.a, self.b, self.c, self.d, self.dt]

    def at(self, pts):
        from .oracle import ss_eval
        return ss_eval(self.a, self.b, self.c, self.d, pts)

    def build(self, rng=None):
        if self.n == 0:
            d = self.d.copy()
            if rng is not None and rng.random() < .5:
                return State(None, None, None, d, dt=self.dt)
            return State(d, dt=self.dt)
        if rng is not None and rng.random() < .3:
            return State(self.a.tolist(), self.b.tolist(), self.c.tolist(),
                         self.d.tolist(), dt=self.dt)
        return State(self.a.copy(), self.b.copy(), self.c.copy(),
                     self.d.copy(), dt=self.dt)


def tf_entry(rng, dt, maxdeg=3, kind='any', den=None, zero=0.08, gain=0.12,
             repeat=0.1, proper=0.35):
    """One proper rational entry as (num, den) coefficient arrays."""
    u = rng.random()
    if u < zero:
        return np.array([0.]), (np.array([lead(rng)]) if den is None else den)
    if den is None:
        deg = 0 if u < zero + gain else int(rng.integers(1, maxdeg+1))
        den = lead(rng)*poly(roots(rng, deg, dt, kind, repeat))
    deg = len(den)-1
    if deg == 0:
        return np.array([lead(rng)*2]), den
    nd = deg if rng.random() < proper else int(rng.integers(0, deg))
    if rng.random() < .5:
        num = lead(rng)*poly(roots(rng, nd, dt, 'any'))
    else:
        num = coeffs(rng, nd)
    return num, den


def tf(rng, dt='rand', shp=None, maxdeg=3, kind='any', gain=0.1, zero=0.08,
       entry_gain=0.12, repeat=0.1, hi=3, proper=0.35):
    """A transfer matrix.  Denominators may be common, shared or unrelated."""
    if dt == 'rand':
        dt = some_dt(rng)
    p, m = shape(rng, hi) if shp is None else shp
    if rng.random() < gain:
        num = [[np.array([float(np.round(rng.normal()*3, 2))])
                for _ in range(m)] for _ in range(p)]
        den = [[np.array([1. if rng.random() < .6 else lead(rng)])
                for _ in range(m)] for _ in range(p)]
        return TF(num, den, dt, ['gain'])
    if (p, m) == (1, 1):
        n, d = tf_entry(rng, dt, maxdeg, kind, zero=0, gain=0, repeat=repeat,
                        proper=proper)
        return TF([[n]], [[d]], dt, ['dyn'])
    mode = pick(rng, ('common', 'own', 'pool'), p=(.3, .4, .3))
    if p*m > 4 or maxdeg > 3:
        mode = pick(rng, ('common', 'pool'))
    num = [[None]*m for _ in range(p)]
    den = [[None]*m for _ in range(p)]
    if mode == 'common':
        cd = lead(rng)*poly(roots(rng, int(rng.integers(1, maxdeg+1)), dt,
                                  kind, repeat))
    pool = roots(rng, max(2, maxdeg), dt, kind, 0.)
    for i in range(p):
        for j in range(m):
            if mode == 'common':
                num[i][j], den[i][j] = tf_entry(rng, dt, maxdeg, kind,
                                                den=cd, zero=zero,
                                                proper=proper)
            elif mode == 'own':
                num[i][j], den[i][j] = tf_entry(rng, dt, min(maxdeg, 2), kind,
                                                zero=zero, gain=entry_gain,
                                                repeat=repeat, proper=proper)
            else:
                k = int(rng.integers(0 if entry_gain else 1, len(pool)+1))
                idx = rng.permutation(len(pool))[:k]
                d = lead(rng)*poly([pool[x] for x in idx])
                num[i][j], den[i][j] = tf_entry(rng, dt, maxdeg, kind,
                                                den=d, zero=zero,
                                                proper=proper)
    if all(len(x) == 1 for r in den for x in r):
        den[0][0] = poly([real_root(rng, dt, kind if kind != 'any'
                                    else 'stable')])
        num[0][0] = np.array([1.])
    return TF(num, den, dt, [mode])


def orth(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    return q*np.sign(np.diag(r))


def real_blocks(rts):
    n = sum(2 if isinstance(r, complex) else 1 for r in rts)
    a = np.zeros((n, n))
    k = 0
    for r in rts:
        if isinstance(r, complex):
            a[k:k+2, k:k+2] = [[r.real, r.imag], [-r.imag, r.real]]
            k += 2
        else:
            a[k, k] = r
            k += 1
    return a


def similarity(rng, n, mild=True):
    """A well conditioned change of basis."""
    s = np.exp(rng.uniform(-.7, .7, n)) if mild else np.ones(n)
    return orth(rng, n)*s @ orth(rng, n)


def a_matrix(rng, n, dt, kind='any', repeat=0.1, form=None):
    form = form or pick(rng, ('diag', 'orth', 'sim', 'tri', 'comp', 'int'),
                        p=(.1, .3, .25, .15, .15, .05))
    rts = roots(rng, n, dt, kind, repeat)
    if form == 'int' and kind == 'any':
        return rng.integers(-3, 4, (n, n)).astype(float), form
    if form == 'comp':
        c = poly(rts)
        a = np.eye(n, k=1)
        a[-1] = -c[:0:-1]
        return a, form
    a = real_blocks(rts)
    if form == 'tri':
        u = np.triu(np.round(rng.normal(size=(n, n)), 2), 2)
        return a + u, form
    if form in ('orth', 'int'):
        q = orth(rng, n)
        return q @ a @ q.T, form
    if form == 'sim':
        t = similarity(rng, n)
        return np.linalg.solve(t, a @ t), form
    return a, form


def matrix(rng, r, c, sparse=0.25):
    u = rng.random()
    if u < .4:
        x = rng.integers(-4, 5, (r, c)).astype(float)
    else:
        x = np.round(rng.normal(size=(r, c))*1.5, 3)
    if rng.random() < sparse:
        x[rng.random((r, c)) < .5] = 0.
    return x


def ss(rng, dt='rand', shp=None, n=None, nmax=5, kind='any', gain=0.1, hi=3,
       d=None, repeat=0.1, form=None, sparse=0.25):
    if dt == 'rand':
        dt = some_dt(rng)
    p, m = shape(rng, hi) if shp is None else shp
    if n is None:
        n = 0 if rng.random() < gain else int(rng.integers(1, nmax+1))
    if n == 0:
        e = np.zeros((0, 0))
        dd = matrix(rng, p, m)
        if not dd.any():
            dd[0, 0] = 1.
        return SS(e, e, e, dd, dt, ['gain'])
    a, f = a_matrix(rng, n, dt, kind, repeat, form)
    b, c = matrix(rng, n, m, sparse), matrix(rng, p, n, sparse)
    if not b.any():
        b[0, 0] = 1.
    if not c.any():
        c[0, 0] = 1.
    u = rng.random()
    if d is None:
        d = 'zero' if u < .4 else 'full'
    dd = np.zeros((p, m)) if d == 'zero' else matrix(rng, p, m)
    if d == 'invertible':
        k = min(p, m)
        dd = np.round(rng.normal(size=(p, m)), 2)*.3
        dd[:k, :k] += np.diag(np.where(rng.random(k) < .5, 2., -1.5))
    return SS(a, b, c, dd, dt, [f])


def model(rng, **kw):
    """Either representation."""
    if rng.random() < .5:
        keep = ('dt', 'shp', 'kind', 'gain', 'hi', 'repeat')
        return tf(rng, **{k: v for k, v in kw.items() if k in keep})
    keep = ('dt', 'shp', 'kind', 'gain', 'hi', 'repeat', 'nmax', 'n')
    return ss(rng, **{k: v for k, v in kw.items() if k in keep})


def unit(rng, dt, p=.2, hi=30):
    """A power of two as the unit of time of continuous models."""
    return 2.**rng.integers(-hi, hi+1) if dt is None and rng.random() < p \
        else 1.


def retimed(x, w):
    """The model with time measured in another unit, G(s/w)."""
    if w == 1. or not isinstance(x, (SS, TF)):
        return x
    tags = x.tags + [f'unit {w}']
    if isinstance(x, SS):
        out = SS(x.a*w, x.b*w, x.c, x.d, x.dt, tags)
        out.unit = w
        return out
    num, den = [], []
    for rn, rd in zip(x.num, x.den):
        num.append([u*w**(np.arange(len(u)) + len(v) - len(u))
                    for u, v in zip(rn, rd)])
        den.append([v*w**np.arange(len(v)) for v in rd])
    out = TF(num, den, x.dt, tags)
    out.unit = w
    return out
