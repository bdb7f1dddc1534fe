"""Randomly drawn models."""
import numpy as np
from harold import State, random_state_model

from .. import gen, oracle
from ..core import Skip, Workload

ID = 'C29'
RULE = ('distinct models drawn whose size, sampling period, stability and '
        'kinds of poles were compared with the request')
ASSUMPTIONS = ['sampling periods between 1e-3 and 1']


def distribution(rng, k):
    """Probabilities, often with several of them exactly zero."""
    keep = rng.random(k) < gen.pick(rng, (.4, .7, 1.))
    keep[int(rng.integers(k))] = True
    x = rng.integers(1, 9, k)*keep
    return (x/x.sum()).tolist()


def kinds(poles, dt):
    """Number of (real, complex, integrator, undamped) poles."""
    s = np.log(poles.astype(complex))/dt if dt else poles
    tol = 1e-6
    out = [0, 0, 0, 0]
    for v in s:
        if dt and abs(abs(v.imag*dt) - np.pi) < 1e-3:
            raise Skip('a pair met at the Nyquist frequency')
        re, im = abs(v.real) > tol, abs(v.imag) > tol
        out[0 if re and not im else 1 if re else 2 if not im else 3] += 1
    return out


def draw(rng, mon):
    n = int(gen.pick(rng, (0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12, 20)))
    p, m = (int(v) for v in rng.integers(1, 6, 2))
    dt = gen.pick(rng, (None, None, .1, .25, 1., .001))
    stable = bool(rng.random() < .5)
    if not stable and dt == 1.:
        dt = .2
    kw = {}
    if rng.random() < .7:
        kw['prob_dist'] = distribution(rng, 2 if stable else 4)
        if rng.random() < .3:
            kw['prob_dist'] = np.array(kw['prob_dist'])
    if dt is not None or rng.random() < .5:
        kw['dt'] = dt
    if not stable or rng.random() < .5:
        kw['stable'] = stable
    np.random.seed(int(rng.integers(2**31)))
    size = gen.pick(rng, ((n, p, m), (float(n), p, m), (np.int64(n), p, m)))
    G = mon.result('random_state_model', random_state_model, *size, **kw)
    data = dict(size=[n, p, m], request=kw)
    mon.check(isinstance(G, State), 'type', type(G).__name__, **data)
    mon.check(G.NumberOfStates == n and G.a.shape == (n, n), 'states',
              f'{G.NumberOfStates} states', **data)
    mon.check(G.shape == (p, m) and G.NumberOfOutputs == p and
              G.NumberOfInputs == m and G.d.shape == (p, m) and
              (n == 0 or G.b.shape == (n, m) and G.c.shape == (p, n)),
              'shape',
              f'{G.shape}', **data)
    mon.check(G.SamplingPeriod == dt, 'period', f'{G.SamplingPeriod}', **data)
    mon.check(G._isgain == (n == 0), 'gain', '', **data)
    for x in G.matrices:
        mon.check(bool(np.all(np.isfinite(x))) and np.isrealobj(x), 'finite',
                  'not finite or not real', **data)
    pl = np.linalg.eigvals(G.a) if n else np.zeros(0)
    if stable:
        edge = (np.abs(pl) < 1) if dt else (pl.real < 0)
        mon.check(bool(np.all(edge)) and
                  oracle.flag(G, '_isstable', True), 'stable',
                  'not stable', poles=pl, **data)
    pd = kw.get('prob_dist')
    if n and not (dt and stable and dt > .3):
        k = kinds(pl, dt)
        pd = [.5, .5] if stable and pd is None else \
            [.475, .475, .025, .025] if pd is None else list(pd)
        pd = pd + [0, 0] if len(pd) == 2 else pd
        for i, name in enumerate(('real', 'complex', 'integrator',
                                  'undamped')):
            # a single state that no pair can fill
            spare = i == 0 and n % 2 and pd[0] == pd[2] == 0
            mon.check(pd[i] > 0 or k[i] <= int(spare), f'kind:{name}',
                      f'{k[i]} {name} poles at zero probability', poles=pl,
                      **data)
    mon.nontrivial(n, p, m, dt, stable, G.a, G.b, G.c, G.d,
                   bucket=f'{n}:{dt is None}:{stable}:'
                   f'{[v > 0 for v in pd] if pd is not None else None}')


def frequency(rng, mon):
    """Over many draws the kinds appear as often as requested."""
    stable = bool(rng.random() < .5)
    pd = distribution(rng, 2 if stable else 4)
    np.random.seed(int(rng.integers(2**31)))
    # The first choice is decisive for two states
    k = np.zeros(4)
    N = 400
    for _ in range(N):
        G = mon.call('random_state_model', random_state_model, 2,
                     prob_dist=pd, stable=stable)
        c = kinds(np.linalg.eigvals(G.a), None)
        k += [0, c[1] > 0, 0, c[3] > 0]
    pd = pd + [0, 0] if stable else pd
    # P(pair) = pair at the first choice
    for i in (1, 3):
        sd = np.sqrt(pd[i]*(1-pd[i])/N)
        mon.check(abs(k[i]/N - pd[i]) <= 7*sd + 1e-12, f'frequency:{i}',
                  f'{k[i]/N:.3f} instead of {pd[i]:.3f}', request=pd)
    mon.nontrivial('frequency', pd, stable, bucket=f'freq:{stable}')


def both_signs(rng, mon):
    """Without a request for stability unstable poles do occur."""
    np.random.seed(int(rng.integers(2**31)))
    n = int(rng.integers(1, 4))
    dt = gen.pick(rng, (None, .1))
    seen = set()
    for _ in range(120):
        G = mon.call('random_state_model', random_state_model, n, dt=dt,
                     stable=False)
        seen.add(bool(np.all(G.poles.real < 0) if dt is None else
                      np.all(np.abs(G.poles) < 1)))
    mon.check(seen == {True, False}, 'unstable', 'only models with '
              f'stable={seen} are drawn', n=n, dt=dt)
    mon.nontrivial('signs', n, dt, int(rng.integers(2**31)))


def refused(rng, mon):
    n, p, m = (int(v) for v in rng.integers(2, 5, 3))
    np.random.seed(int(rng.integers(2**31)))
    args, kw = [n, p, m], {}
    why = gen.pick(rng, ('states', 'outputs', 'inputs', 'dt', 'sum', 'length',
                         'length4', 'negative', 'text', 'nan'))
    if why == 'states':
        args[0] = -int(rng.integers(1, 5))
    elif why == 'outputs':
        args[1] = -int(rng.integers(1, 5))
    elif why == 'inputs':
        args[2] = -int(rng.integers(1, 5))
    elif why == 'dt':
        kw['dt'] = gen.pick(rng, (0, -1, -.1, 0.))
    elif why == 'sum':
        kw['prob_dist'] = gen.pick(rng, ([.5, .4], [1, 1], [0, 0]))
        args[0] = gen.pick(rng, (1, 2, 3))
    elif why == 'length':
        kw['prob_dist'] = gen.pick(rng, ([1, 0, 0, 0], [1], [.2, .3, .5]))
        args[0] = gen.pick(rng, (1, 2, 3))
    elif why == 'length4':
        kw['prob_dist'] = gen.pick(rng, ([1, 0], [1], [.2]*5, [.2, .3, .5]))
        kw['stable'] = False
        args[0] = gen.pick(rng, (1, 2, 3))
    elif why == 'negative':
        kw['prob_dist'] = gen.pick(rng, ([-.5, 1.5], [2, -1]))
    elif why == 'nan':
        kw['prob_dist'] = [np.nan, 1.]
    else:
        args[int(rng.integers(3))] = 'many'
    mon.rejected('random_state_model', random_state_model, *args,
                 exc=(ValueError, TypeError), key=f'refused:{why}', **kw)
    mon.nontrivial('refused', args, sorted(kw.items()), bucket=why)


WORKLOADS = [
    Workload('draw', draw, 6000),
    Workload('frequency', frequency, 24),
    Workload('both_signs', both_signs, 24, need=0),
    Workload('refused', refused, 300),
]
