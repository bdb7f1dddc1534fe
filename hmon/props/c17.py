"""Lyapunov and Stein equations."""
import numpy as np
from harold import lyapunov_eq_solver

from .. import gen
from ..core import Skip, Workload

ID = 'C17'
RULE = ('distinct equations (matrices, form, plain or generalised) whose '
        'returned solution was put back into the equation')
ASSUMPTIONS = ['the equation is uniquely solvable with a margin: the sums '
               '(products) of eigenvalues stay 1e-8 away from zero (one)',
               'the right hand side is symmetric']
REFUSE = (ValueError,)


def blocks(rng, n, kind):
    """Eigenvalue blocks; mixes real and complex blocks in random order."""
    out, left = [], n
    while left:
        if left > 1 and rng.random() < .5:
            re, im = rng.integers(-12, 13)/4, rng.integers(1, 9)/4
            s = 2.**rng.integers(-1, 2)
            out.append(np.array([[re, im*s], [-im/s, re]]))
            left -= 2
        else:
            out.append(np.array([[rng.integers(-12, 13)/4]]))
            left -= 1
    if kind == 'd':
        out = [b/2 for b in out]
    if rng.random() < .2 and len(out) > 1:
        i, j = rng.integers(0, len(out), 2)
        if len(out[i]) == len(out[j]):
            out[i] = out[j].copy()
    return out


def slow(rng, bl, kind):
    """Move one block next to the boundary of stability."""
    k = int(rng.integers(0, len(bl)))
    b, e = bl[k], 2.**-rng.integers(4, 21)*rng.choice([-1, 1])
    if kind == 'c':
        bl[k] = b - (np.trace(b)/len(b) - e)*np.eye(len(b))
    elif np.any(b):
        bl[k] = b*(1 + e)/np.abs(np.linalg.eigvals(b)[0])


def diag(bl, n):
    m = np.zeros((n, n))
    k = 0
    for b in bl:
        m[k:k+len(b), k:k+len(b)] = b
        k += len(b)
    return m


def change(rng, n):
    u = rng.random()
    if u < .3:
        return np.eye(n)
    if u < .6:
        return gen.orth(rng, n)
    m = gen.orth(rng, n) @ np.diag(2.**rng.uniform(-1, 1, n))
    return m @ gen.orth(rng, n) if u < .8 else m


def separation(la, lb, kind):
    """Distance of the equation from not being uniquely solvable."""
    if kind == 'c':
        s = np.multiply.outer(la, lb) + np.multiply.outer(lb, la)
    else:
        s = np.multiply.outer(la, la) - np.multiply.outer(lb, lb)
    return np.min(np.abs(s))


def symmetric(rng, n):
    u = rng.random()
    y = rng.integers(-4, 5, (n, n)).astype(float)
    y = y + y.T
    if u < .2:
        v = rng.normal(size=(n, 1))
        return v @ v.T
    return y if u < .9 else np.eye(n)


def check(mon, key, x, a, y, e, kind, **data):
    n = len(a)
    x = np.asarray(x)
    mon.check(x.shape == (n, n) and np.all(np.isfinite(x)) and
              np.isrealobj(x), key + ':finite', 'not a finite real matrix',
              got=x, a=a, y=y, e=e)
    ee = np.eye(n) if e is None else e
    if kind == 'c':
        res = ee.T @ x @ a + a.T @ x @ ee + y
        s = 2*np.linalg.norm(a)*np.linalg.norm(ee)
    else:
        res = a.T @ x @ a - ee.T @ x @ ee + y
        s = np.linalg.norm(a)**2 + np.linalg.norm(ee)**2
    nx = np.linalg.norm(x)
    mon.close(res, 0*res, key + ':residual', rtol=1e-9,
              scale=s*nx + np.linalg.norm(y), a=a, y=y, e=e, x=x, **data)
    mon.close(x, x.T, key + ':symmetric', rtol=1e-8, scale=nx, a=a, y=y, e=e)


def form(rng, kind):
    if kind == 'c':
        return gen.pick(rng, ({}, {'form': 'c'}, {'form': 'continuous'}))
    return {'form': gen.pick(rng, ('d', 'discrete'))}


def solve(rng, mon):
    kind = gen.pick(rng, 'cd')
    n = int(gen.pick(rng, (1, 2, 2, 3, 3, 4, 5, 6, 8)))
    bl = blocks(rng, n, kind)
    margin = .1
    if rng.random() < .2:
        # the residual is small no matter how sensitive the solution is
        slow(rng, bl, kind)
        margin = 1e-8
    a = diag(bl, n)
    # some coupling above the diagonal blocks
    if rng.random() < .5:
        a = a + np.triu(rng.integers(-2, 3, (n, n)), 2)
    ev = np.linalg.eigvals(a)
    gener = rng.random() < .5
    beta = np.ones(n)
    if gener and rng.random() < .4:
        bl = blocks(rng, n, kind)
        a, k = diag(bl, n), 0
        ev = np.linalg.eigvals(a)
        for b in bl:
            beta[k:k+len(b)] = gen.pick(rng, (1., 2., -1., .5, 3., 1.))
            k += len(b)
        ev = np.concatenate([np.linalg.eigvals(b) for b in bl])
        if kind == 'd' and rng.random() < .3:
            # E may be singular
            beta[[k for k in range(n) if not a[k].any() or
                  np.count_nonzero(a[k]) == 1][:1]] = 0.
    if separation(ev, beta, kind) < margin:
        raise Skip('nearly singular')
    e = None
    if gener:
        p, q = change(rng, n), change(rng, n)
        a, e = p @ a @ q, p @ np.diag(beta) @ q
    else:
        t = change(rng, n)
        a = np.linalg.solve(t, a @ t)
    y = symmetric(rng, n)
    exact = not gener and rng.random() < .2
    if exact:
        a = np.round(a)
        if separation(np.linalg.eigvals(a), beta, kind) < margin:
            raise Skip('nearly singular')
    if kind == 'c' and rng.random() < .2:
        a = a*10.**rng.integers(-12, 7)
    if rng.random() < .2:
        y = y*10.**rng.integers(-8, 9)
    key = f'{kind}{"g" if gener else ""}'
    args = []
    for v in (a, y) if e is None else (a, y, e):
        u = rng.random()
        if np.all(v == np.round(v)) and np.max(np.abs(v)) < 1e6 and u < .3:
            v = v.astype(int)
        elif u < .5:
            v = np.asfortranarray(v)
        elif u < .6:
            v = v.tolist()
        args.append(v if isinstance(v, list) else v.copy(order='K'))
    if n == 1 and rng.random() < .3:
        args = [np.asarray(v).item() for v in args]
    before = [np.array(v) for v in args]
    x = mon.result('lyapunov_eq_solver', lyapunov_eq_solver, *args, key=key,
                   **form(rng, kind))
    check(mon, key, x, a, y, e, kind)
    mon.check(all(np.array_equal(u, v) for u, v in zip(before, args)),
              key + ':mutated', 'an argument was changed', a=a, y=y, e=e)
    mon.nontrivial(a, y, str(e), kind,
                   bucket=(kind, n, gener, tuple(len(b) for b in bl)),
                   sample={'form': kind, 'n': n, 'generalised': gener,
                           'blocks': [len(b) for b in bl]})


def refused(rng, mon):
    n = int(rng.integers(2, 5))
    a, y, e = rng.normal(size=(3, n, n))
    y = y + y.T
    what = gen.pick(rng, ('a', 'y', 'e', 'sizes', 'esize', 'form'))
    kw = form(rng, gen.pick(rng, 'cd'))
    args = [a, y] + ([e] if rng.random() < .5 or what[0] == 'e' else [])
    if what in 'aye':
        k = 'aye'.index(what)
        args[k] = args[k][:-1]
    elif what == 'sizes':
        args[1] = np.eye(n+1)
    elif what == 'esize':
        args[2] = np.eye(n-1)
    else:
        kw = {'form': gen.pick(rng, ('a', 'C', '', 'cont', None))}
    mon.rejected('lyapunov_eq_solver', lambda: lyapunov_eq_solver(
        *args, **kw), exc=REFUSE, key=f'refused:{what}')
    mon.nontrivial(what, a, str(kw), bucket=(what, n))


WORKLOADS = [Workload('solve', solve, 20000),
             Workload('refused', refused, 800)]
