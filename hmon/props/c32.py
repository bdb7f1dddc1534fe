"""Static models calculate like the matrices they stand for."""
import harold as h
import numpy as np

from .. import gen, oracle
from ..core import Workload

ID = 'C32'
RULE = ('distinct static models (or pairs of them) whose derived models and '
        'arrays were compared with matrix arithmetic')


def static(rng, v, dt):
    """A model of the matrix v, of either kind and in any form."""
    p, m = v.shape
    kw = {} if dt is None else {'dt': dt}
    form = gen.pick(rng, ('ss', 'ss4', 'tf', 'den', 'common'))
    if form == 'ss':
        return h.State(v.copy(), **kw), 'State'
    if form == 'ss4':
        return h.State(None, None, None, v.copy(), **kw), 'State'
    if p*m == 1:
        q = gen.lead(rng)
        x = v[0, 0]
        return h.Transfer(x, **kw) if form == 'tf' else \
            h.Transfer(x*q, q, **kw), 'Transfer'
    if form == 'tf' and min(p, m) > 1:
        return h.Transfer(v.copy(), **kw), 'Transfer'
    if form in ('tf', 'common'):
        q = gen.lead(rng)
        return h.Transfer([[[x] for x in r] for r in v*q], q,
                          **kw), 'Transfer'
    q = np.array([[gen.lead(rng) for _ in range(m)] for _ in range(p)])
    return h.Transfer([[[x] for x in r] for r in v*q],
                      [[[x] for x in r] for r in q], **kw), 'Transfer'


def values(rng, shp, rank=None):
    v = rng.integers(-4, 5, shp)/gen.pick(rng, (1., 2., 8.))
    if rank == 'full':
        while np.linalg.svd(v, compute_uv=False)[-1] < .1:
            v = rng.integers(-4, 5, shp).astype(float)
    elif rng.random() < .1:
        v = v*0
    return v


def judge(mon, R, want, dt, key, kind=None, **data):
    """R is the static model of the matrix."""
    mon.check(isinstance(R, (h.State, h.Transfer)), key + ':type',
              type(R).__name__, **data)
    if kind:
        mon.check(type(R).__name__ == kind, key + ':kind',
                  f'{type(R).__name__} instead of {kind}', **data)
    mon.check(R.shape == want.shape and R.SamplingPeriod == dt, key +
              ':attributes', f'{R.shape}, {R.SamplingPeriod}', **data)
    A = mon.result('to_array', lambda: R.to_array(), key=key + ':to_array')
    mon.check(isinstance(A, np.ndarray) and A.shape == want.shape, key +
              ':to_array', f'{A!r:.200}', want=want, **data)
    mon.close(A, want, key + ':value', 1e-9,
              atol=1e-9*(1 + np.max(np.abs(want))), **data)
    mon.check(np.size(R.poles) == 0 and np.size(R.zeros) == 0, key +
              ':poles', f'{R.poles} {R.zeros}', **data)
    mon.check(bool(oracle.flag(R, '_isgain', True)) and
              bool(oracle.flag(R, '_isstable', True)), key + ':flags',
              'not a stable gain', **data)


def single(rng, mon):
    shp = gen.shape(rng, 4)
    v = values(rng, shp)
    dt = gen.some_dt(rng)
    G, kind = static(rng, v, dt)
    data = dict(value=v, given=kind)
    judge(mon, G, v, dt, f'{kind}:built', kind, **data)
    p, m = shp
    judge(mon, -G, -v, dt, f'{kind}:neg', kind, **data)
    s = gen.pick(rng, (2., -.5, 3))
    judge(mon, G*s, v*s, dt, f'{kind}:times', kind, **data)
    judge(mon, s*G, v*s, dt, f'{kind}:times', kind, **data)
    judge(mon, G/s, v/s, dt, f'{kind}:over', kind, **data)
    i, j = int(rng.integers(p)), int(rng.integers(m))
    judge(mon, G[i, j], v[i:i+1, j:j+1], dt, f'{kind}:entry', kind, **data)
    r = [int(x) for x in rng.integers(0, p, int(rng.integers(1, p+1)))]
    judge(mon, G[r, :], v[r], dt, f'{kind}:rows', kind, **data)
    for fn, k in ((h.minimal_realization, kind),
                  (h.state_to_transfer, 'Transfer'),
                  (h.transfer_to_state, 'State')):
        R = mon.result(fn.__name__, fn, G)
        judge(mon, R, v, dt, f'{kind}:{fn.__name__}', k, **data)
    if dt is None:
        meth = gen.pick(rng, ('tustin', 'zoh', 'foh', '>>', '<<'))
        R = mon.result('discretize', h.discretize, G, .5, method=meth)
        judge(mon, R, v, .5, f'{kind}:discretize', kind, **data)
    else:
        R = mon.result('undiscretize', h.undiscretize, G)
        judge(mon, R, v, None, f'{kind}:undiscretize', kind, **data)
    # responses
    w = np.array([.01, .2, .3])/(dt or 1)
    f, _ = mon.result('frequency_response', h.frequency_response, G, w)
    f = np.asarray(f)
    mon.close(np.ravel(f),
              np.ravel(np.broadcast_to(v[..., None], shp + (3,))),
              f'{kind}:frequency', 1e-9, atol=1e-9, **data)
    mon.close(np.ravel(G.dcgain), np.ravel(v), f'{kind}:dcgain', 1e-9,
              atol=1e-9, **data)
    u = rng.integers(-3, 4, (6, m)).astype(float)
    y, _ = mon.result('simulate_linear_system', h.simulate_linear_system, G,
                      u, np.arange(6)*(dt or 1.))
    mon.close(np.asarray(y).reshape(6, -1), u @ v.T, f'{kind}:simulate',
              1e-9, atol=1e-9, **data)
    y, t = mon.result('simulate_step_response', h.simulate_step_response, G)
    y = np.asarray(y).reshape(len(t), p, m)
    mon.close(y, np.broadcast_to(v, y.shape), f'{kind}:step', 1e-9,
              atol=1e-9, **data)
    x = mon.result('system_norm', h.system_norm, G)
    mon.close(x, np.linalg.norm(v, 2), f'{kind}:norm', 1e-6, atol=1e-9,
              **data)
    mon.nontrivial('single', kind, v, dt,
                   bucket=('single', kind, shp, dt is None))


def pairs(rng, mon):
    p, k, m = (int(x) for x in rng.integers(1, 4, 3))
    dt = gen.some_dt(rng)
    x, y, z = values(rng, (p, m)), values(rng, (p, m)), values(rng, (m, k))
    (X, kx), (Y, ky), (Z, kz) = (static(rng, v, dt) for v in (x, y, z))
    data = dict(x=x, y=y, z=z, kinds=(kx, ky, kz))
    kind = 'Transfer' if kx == ky == 'Transfer' else 'State'
    key = f'{kx}/{ky}'
    judge(mon, X + Y, x + y, dt, key + ':add', kind, **data)
    judge(mon, X - Y, x - y, dt, key + ':sub', kind, **data)
    judge(mon, X + y, x + y, dt, f'{kx}/array:add', kx, **data)
    judge(mon, y - X, y - x, dt, f'array/{kx}:sub', kx, **data)
    key = f'{kx}/{kz}'
    kind = 'Transfer' if kx == kz == 'Transfer' else 'State'
    judge(mon, X @ Z, x @ z, dt, key + ':matmul', kind, **data)
    judge(mon, X @ z, x @ z, dt, f'{kx}/array:matmul', kx, **data)
    judge(mon, x @ Z, x @ z, dt, f'array/{kz}:matmul', kz, **data)
    # inverse and loops
    v = values(rng, (p, p), 'full')
    V, kv = static(rng, v, dt)
    R = mon.result('rtruediv', lambda: 2./V, key=f'1/{kv}')
    judge(mon, R, 2*np.linalg.inv(v), dt, f'1/{kv}', kv, v=v)
    n = values(rng, (m, p))
    N, kn = static(rng, n, dt)
    L = np.eye(p) - x @ n
    if np.linalg.svd(L, compute_uv=False)[-1] > 1e-2:
        R = mon.result('feedback', h.feedback, X, N, False)
        judge(mon, R, np.linalg.solve(L, x), dt, f'{kx}/{kn}:feedback',
              x=x, n=n)
    mon.nontrivial('pairs', kx, ky, kz, x, y, z, dt,
                   bucket=('pairs', kx, ky, kz, (p, k, m), dt is None))


def dynamic(rng, mon):
    """Models with dynamics have no array, cancelling or not."""
    raw = gen.model(rng, nmax=3, maxdeg=2, gain=0., hi=2)
    if isinstance(raw, gen.SS):
        n = raw.n
    else:
        n = max(len(d) - 1 for r in raw.den for d in r)
    G = mon.result('build', raw.build, rng)
    kind = type(G).__name__
    if n == 0:
        mon.result('to_array', lambda: G.to_array(), key=f'{kind}:to_array')
    else:
        mon.rejected('to_array', lambda: G.to_array(),
                     key=f'{kind}:dynamic')
    mon.nontrivial('dynamic', raw.raw(), bucket=('dynamic', kind, G.shape))


WORKLOADS = [Workload('single', single, 2500),
             Workload('pairs', pairs, 3000),
             Workload('dynamic', dynamic, 2500)]
