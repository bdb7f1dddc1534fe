"""Reference semantics, computed without harold.

A model stands for its transfer matrix: a function of one complex variable.
Everything here evaluates that function from raw coefficient or matrix data.
"""
import numpy as np


def horner(c, x):
    y = np.zeros_like(x, dtype=complex)
    for v in np.asarray(c, dtype=float).ravel():
        y = y*x + v
    return y


def tf_eval(num, den, pts):
    """K x p x m values of a transfer matrix given as nested lists."""
    pts = np.asarray(pts, dtype=complex)
    p, m = len(num), len(num[0])
    out = np.empty((pts.size, p, m), dtype=complex)
    for i in range(p):
        for j in range(m):
            out[:, i, j] = horner(num[i][j], pts)/horner(den[i][j], pts)
    return out


def ss_eval(a, b, c, d, pts):
    pts = np.asarray(pts, dtype=complex)
    a, b, c, d = (np.asarray(x, dtype=float) for x in (a, b, c, d))
    n = a.shape[0] if a.size else 0
    out = np.empty((pts.size,) + d.shape, dtype=complex)
    if n and a.shape == (n, n) and np.all(np.isfinite(a)) and \
            not 2.**-8 < np.linalg.norm(a) < 2.**8:
        # coordinates by powers of two, exact
        from scipy.linalg import matrix_balance
        _, (sc, _) = matrix_balance(a, permute=False, separate=True)
        a, b, c = a*sc/sc[:, None], b/sc[:, None], c*sc
    for k, s in enumerate(pts):
        out[k] = d
        if n:
            out[k] = out[k] + c @ np.linalg.solve(s*np.eye(n) - a, b)
    return out


def parts(G):
    """Numerator/denominator of a Transfer as nested p x m lists."""
    if G.shape == (1, 1):
        return [[np.asarray(G.num)]], [[np.asarray(G.den)]]
    return G.num, G.den


def model_eval(G, pts):
    """Value of a harold model from its public data."""
    if type(G).__name__ == 'State':
        return ss_eval(*G.matrices, pts)
    n, d = parts(G)
    return tf_eval(n, d, pts)


def flag(G, name, want):
    """Does the flag, one of those harold's own modules rely on, say so?  A
    model that keeps its records in another way is not judged by it."""
    return bool(getattr(G, name, want)) == bool(want)


def model_poles(G):
    if type(G).__name__ == 'State':
        a = np.asarray(G.a)
        return np.linalg.eigvals(a) if a.size else np.array([])
    _, d = parts(G)
    out = [np.roots(np.asarray(x).ravel()) for r in d for x in r
           if np.asarray(x).size > 1]
    return np.concatenate(out) if out else np.array([])


def points(rng, poles, k=6, dt=None, extra=(), unit=1.):
    """Complex test points kept away from the given poles (and each other's
    numerically bad neighbourhoods).  Some lie on the stability boundary."""
    poles = np.asarray(poles, dtype=complex).ravel()
    poles = poles[np.isfinite(poles)]
    base = 0.5*unit if dt is None else 0.8
    rad = max(base, np.max(np.abs(poles), initial=0.))
    keep = []
    gap = 0.25*rad if poles.size < 12 else 0.15*rad
    tries = 0
    while len(keep) < k:
        tries += 1
        u = rng.random()
        if len(keep) == 0:
            z = complex(rad*rng.uniform(1.4, 2.5), 0.)
        elif u < .35:
            z = rad*rng.uniform(1.3, 3.)*np.exp(1j*rng.uniform(-np.pi, np.pi))
        elif u < .6:
            w = rng.uniform(.05, 2.5)*rad
            z = 1j*w if dt is None else np.exp(1j*rng.uniform(.1, 3.1))
        else:
            z = rad*rng.uniform(.1, 1.5)*np.exp(1j*rng.uniform(-np.pi, np.pi))
        if poles.size and np.min(np.abs(poles - z)) < gap and tries < 200:
            continue
        if poles.size and np.min(np.abs(poles - z)) < gap:
            z = rad*rng.uniform(2., 3.)*np.exp(1j*rng.uniform(-np.pi, np.pi))
        keep.append(complex(z))
    return np.array(keep + list(extra), dtype=complex)


def same_multiset(x, y, tol):
    """Greedy matching of two complex multisets; returns worst distance or
    inf when the sizes differ."""
    x, y = np.asarray(x, complex).ravel(), np.asarray(y, complex).ravel()
    if x.size != y.size:
        return np.inf
    if x.size == 0:
        return 0.
    from scipy.optimize import linear_sum_assignment
    dist = np.abs(x[:, None] - y[None, :])
    if not np.all(np.isfinite(dist)):
        return np.inf
    i, j = linear_sum_assignment(dist)
    return float(np.max(dist[i, j]))
