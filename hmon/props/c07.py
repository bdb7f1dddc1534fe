"""Histories of assignments to one model."""
import copy

import harold as h
import numpy as np

from .. import gen, oracle
from ..core import Violation, Workload

ID = 'C07'
RULE = ('distinct assignment histories after which every derived attribute '
        'was compared with a freshly built model')

BAD = (ValueError, IndexError, TypeError, AttributeError)
ATTRS = ('_isSISO', '_isgain', '_isstable', '_isdiscrete', 'SamplingPeriod',
         'SamplingSet', 'NumberOfInputs', 'NumberOfOutputs', 'shape')


def frozen(x):
    """A comparable deep copy of a value."""
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(frozen(v) for v in x)
    return repr(x)


def snapshot(G):
    """A comparable deep copy of everything the model shows."""
    names = [k for k in dir(type(G)) if k != 'dcgain' and
             isinstance(getattr(type(G), k), property)]
    out = {}
    for k in names + list(ATTRS) + ['poles', 'zeros']:
        try:
            out[k] = frozen(getattr(G, k))
        except AttributeError as e:
            out[k] = repr(e)
    return out


def same_values(mon, key, x, y, **data):
    x, y = np.ravel(np.asarray(x, complex)), np.ravel(np.asarray(y, complex))
    if x.size != y.size:
        raise Violation(key, f'{x.size} values instead of {y.size}', data)
    mon.evals[key.split(':')[0]] += 1
    if x.size == 0:
        return
    d = oracle.same_multiset(x, y, 0)
    mon.check(d <= 1e-6*(1 + np.max(np.abs(y))), key, f'off by {d:.2e}',
              got=x, want=y, **data)


def coherent(mon, G, fresh, history):
    """Derived attributes are those of a model built from the same data."""
    kind = type(G).__name__
    for k in ATTRS:
        x, y = getattr(G, k, None), getattr(fresh, k, None)
        mon.check(x == y, f'{kind}:{k}', f'{x} but {y} when built anew',
                  history=history, model=G)
    same_values(mon, f'{kind}:poles', G.poles, fresh.poles, history=history)
    same_values(mon, f'{kind}:zeros', G.zeros, fresh.zeros, history=history)
    if kind == 'State':
        mon.check(G.NumberOfStates == fresh.NumberOfStates,
                  'State:NumberOfStates', 'differs', history=history)
        for name, x, y in zip('abcd', G.matrices, fresh.matrices):
            mon.check(x.shape == y.shape and np.array_equal(x, y) and
                      np.array_equal(x, getattr(G, name)),
                      f'State:{name}', 'differs from what was assigned',
                      got=x, want=y, history=history)
    else:
        for got, want in zip(oracle.parts(G), oracle.parts(fresh)):
            for r, s in zip(got, want):
                for x, y in zip(r, s):
                    mon.check(x.shape == y.shape and np.array_equal(x, y),
                              'Transfer:data', 'differs from what was '
                              'assigned', got=x, want=y, history=history)
        mon.check(G.polynomials[0] is G.num and G.polynomials[1] is G.den or
                  frozen(G.polynomials) == frozen((G.num, G.den)),
                  'Transfer:polynomials', 'differ', history=history)
    mon.check(G.DiscretizedWith is None or G.SamplingPeriod is not None,
              f'{kind}:DiscretizedWith', f'{G.DiscretizedWith} reported for '
              'a continuous model', history=history)
    mon.result('repr', repr, G, key=f'{kind}:repr')


USES = {
    'frequency_response': lambda G: h.frequency_response(G),
    'simulate_step_response': lambda G: h.simulate_step_response(G),
    'simulate_impulse_response': lambda G: h.simulate_impulse_response(G),
    'dcgain': lambda G: (G.dcgain,),
    'convert': lambda G: (h.transfer_to_state(G) if isinstance(G, h.Transfer)
                          else h.state_to_transfer(G),),
    'negate': lambda G: (-G,),
    'add': lambda G: (G + 1.,),
    'multiply': lambda G: (2*G,),
    'square': lambda G: (G @ G,),
    'slice': lambda G: (G[-1, 0],),
    'feedback': lambda G: (h.feedback(.5*G, np.zeros(G.shape[::-1])),),
    'minimal_realization': lambda G: (h.minimal_realization(G),),
    'pole_properties': lambda G: (G.pole_properties(output_data=True),),
    'change': lambda G: (h.discretize(G, .25, method='tustin')
                         if G.SamplingSet == 'R' else
                         h.undiscretize(G, method='tustin'),),
    'transmission_zeros': lambda G: (h.transmission_zeros(
        *(G.matrices if isinstance(G, h.State) else
          h.transfer_to_state(G, output='matrices'))),),
}


def outcome(fn, G):
    """The numbers that an operation gives, or how it fails."""
    try:
        out = fn(G)
    except Exception as e:
        return type(e).__name__
    res = []
    for x in out:
        if isinstance(x, h.State):
            res += [x.SamplingPeriod] + list(x.matrices)
        elif isinstance(x, h.Transfer):
            res.append(x.SamplingPeriod)
            for part in oracle.parts(x):
                res += [y for r in part for y in r]
        else:
            res.append(x)
    return res


def used(rng, mon, G, fresh, history):
    """Operations treat the model as one built from the same data."""
    kind = type(G).__name__
    for name in gen.pick(rng, list(USES)), gen.pick(rng, list(USES)):
        mon.events[name] += 1
        with np.errstate(all='ignore'):
            x, y = outcome(USES[name], G), outcome(USES[name], fresh)
        key = f'{kind}:use:{name}'
        mon.check(isinstance(x, str) == isinstance(y, str) and
                  len(x) == len(y), key, f'{x!r:.200} but {y!r:.200} when '
                  'built anew', history=history)
        if isinstance(x, str):
            continue
        for u, v in zip(x, y):
            if u is None or v is None:
                same = u is v
            else:
                u, v = np.asarray(u), np.asarray(v)
                same = u.shape == v.shape and np.allclose(
                    u, v, rtol=1e-6, atol=1e-9*(1 + np.max(
                        np.abs(v[np.isfinite(v)]), initial=0)),
                    equal_nan=True)
            mon.check(same, key, f'{u!r:.200} but {v!r:.200} when built anew',
                      history=history)


def attempt(mon, G, attr, value):
    """Assign; returns whether it was accepted.  Refusals must be clean."""
    before = snapshot(G)
    mon.events[f'{type(G).__name__}.{attr}='] += 1
    try:
        setattr(G, attr, copy.deepcopy(value))
    except BAD as e:
        after = snapshot(G)
        mon.evals['refusal'] += 1
        if before != after:
            raise Violation(
                f'{type(G).__name__}:{attr}:refusal-not-clean',
                'a refused assignment changed ' +
                ', '.join(k for k in after if before.get(k) != after[k]),
                {'attr': attr, 'value': repr(value), 'error': repr(e)})
        return False
    return True


def demand(mon, G, attr, value, history):
    """A valid assignment, which must be accepted."""
    try:
        setattr(G, attr, copy.deepcopy(value))
    except Exception as e:
        raise Violation(f'{type(G).__name__}:{attr}:valid-refused',
                        f'{type(e).__name__}: {e}',
                        {'value': repr(value), 'history': repr(history)})
    mon.events[f'{type(G).__name__}.{attr}='] += 1


def refuse(mon, G, attr, value, history):
    if attempt(mon, G, attr, value):
        raise Violation(f'{type(G).__name__}:{attr}:invalid-accepted',
                        f'{value!r} was accepted',
                        {'history': repr(history), 'model': repr(vars(G))})


def new_dt(rng):
    return None if rng.random() < .4 else gen.some_dt(rng, 1.)


def bad_common(rng, kind):
    """(attr, value) that no model may accept."""
    return gen.pick(rng, [
        ('SamplingPeriod', 0.), ('SamplingPeriod', -1),
        ('SamplingPeriod', 'a'), ('SamplingPeriod', [1, 2]),
        ('SamplingPeriod', 1 + 1j),
        ('SamplingSet', 'Z'), ('SamplingSet', 'R'),
        ('NumberOfInputs', 3), ('NumberOfOutputs', 1), ('shape', (1, 1)),
        ('polynomials', (1, 1)) if kind == 'T' else ('matrices', (1, 1)),
        ('DiscretizedWith', 'nonsense'), ('DiscretizedWith', ['tustin'])])


METHODS = ('tustin', 'zoh', 'lft', 'forward euler', 'backward euler', '>>',
           'bilinear')


def meta(rng, mon, G, dt, history):
    """Discretization records."""
    u = rng.random()
    # what was recorded while the model was discrete is kept
    now = getattr(G, '_DiscretizedWith', G.DiscretizedWith)
    if u < .5:
        m = gen.pick(rng, METHODS)
        history.append(('DiscretizedWith', m))
        if dt is None:
            refuse(mon, G, 'DiscretizedWith', m, history)
        else:
            demand(mon, G, 'DiscretizedWith', m, history)
            mon.check(G.DiscretizedWith == m, 'records:method',
                      f'{G.DiscretizedWith}', history=history)
    elif u < .8:
        tustin = now in ('tustin', 'bilinear')
        if dt is None or not tustin:
            if dt is not None or not tustin:
                refuse(mon, G, 'PrewarpFrequency', .01, history)
            return
        w = float(rng.uniform(.05, 2.)/(2*dt))
        history.append(('PrewarpFrequency', w))
        if w > 1/(2*dt):
            refuse(mon, G, 'PrewarpFrequency', w, history)
        else:
            demand(mon, G, 'PrewarpFrequency', w, history)
            mon.check(G.PrewarpFrequency == w, 'records:prewarp',
                      f'{G.PrewarpFrequency}', history=history)
    else:
        q = np.array([[1., .5], [.5, .25]])
        history.append(('DiscretizationMatrix', q.tolist()))
        if now == 'lft' and dt is not None:
            demand(mon, G, 'DiscretizationMatrix', q, history)
            mon.check(np.array_equal(G.DiscretizationMatrix, q),
                      'records:lft', f'{G.DiscretizationMatrix}')
        elif now != 'lft':
            refuse(mon, G, 'DiscretizationMatrix', q, history)


def entries(rng, raw, which):
    """Valid new numerators or denominators for the transfer data."""
    p, m = raw.shape
    out = [[None]*m for _ in range(p)]
    keep = rng.random() < .3
    for i in range(p):
        for j in range(m):
            n, d = raw.num[i][j], raw.den[i][j]
            if which == 'num':
                k = int(rng.integers(0, len(d)))
                out[i][j] = gen.coeffs(rng, k)
                if rng.random() < .1:
                    out[i][j] = np.array([0.])
                if keep and rng.random() < .6:
                    out[i][j] = n.copy()
            else:
                k = int(rng.integers(len(n)-1, len(n)+2))
                out[i][j] = gen.lead(rng)*gen.poly(gen.roots(rng, k, raw.dt))
                if keep and rng.random() < .6:
                    out[i][j] = d.copy()
    return out


def given(rng, grid):
    """The nested data in a form the setter documents."""
    if len(grid) == len(grid[0]) == 1:
        v = grid[0][0]
        return gen.pick(rng, [v.tolist(), v.copy(), v[None].copy(),
                              float(v[0]) if len(v) == 1 else v.tolist()])
    return [[x.tolist() for x in r] for r in grid] if rng.random() < .5 \
        else [[x.copy() for x in r] for r in grid]


def transfer(rng, mon):
    raw = gen.tf(rng, maxdeg=2, gain=.2, hi=2)
    G = mon.result('build', raw.build, rng)
    raw.num = [[np.trim_zeros(x, 'f') if x.any() else np.array([0.])
                for x in r] for r in raw.num]
    p, m = raw.shape
    history = [('start', [[x.tolist() for x in r] for r in raw.num],
                [[x.tolist() for x in r] for r in raw.den], raw.dt)]
    for _ in range(int(rng.integers(1, 7))):
        u = rng.random()
        if u < .5:
            which = gen.pick(rng, ('num', 'den'))
            new = entries(rng, raw, which)
            history.append((which, [[x.tolist() for x in r] for r in new]))
            demand(mon, G, which, given(rng, new), history)
            setattr(raw, which, new)
        elif u < .65:
            raw.dt = new_dt(rng)
            history.append(('SamplingPeriod', raw.dt))
            demand(mon, G, 'SamplingPeriod', raw.dt, history)
        elif u < .75:
            meta(rng, mon, G, raw.dt, history)
        elif u < .8:
            which = gen.pick(rng, ('num', 'den'))
            good = getattr(raw, which)
            bad = [[x.tolist() for x in r] for r in good]
            i, j = int(rng.integers(p)), int(rng.integers(m))
            bad[i][j] = spoil(rng, good[i][j]).tolist()
            nonfinite(rng, mon, G, which, bad if p*m > 1 else bad[0][0],
                      good if p*m > 1 else good[0][0], history)
        else:
            bad = bad_transfer(rng, raw)
            history.append(('bad',) + tuple(repr(x) for x in bad))
            refuse(mon, G, *bad, history)
        fresh = mon.result('build', gen.TF(raw.num, raw.den, raw.dt).build)
        coherent(mon, G, fresh, history)
    used(rng, mon, G, fresh, history)
    mon.nontrivial(repr(history),
                   bucket=('T', raw.shape, tuple(h[0] for h in history)),
                   sample={'history': history[:4]})


def bad_transfer(rng, raw):
    u = rng.random()
    p, m = raw.shape
    if u < .3:
        return bad_common(rng, 'T')
    which = gen.pick(rng, ('num', 'den'))
    grid = [[x.copy() for x in r] for r in getattr(raw, which)]
    if u < .45:
        # another shape
        if rng.random() < .5 or p == 1 or (p, m) == (2, 1):
            grid = grid + grid
        else:
            grid = grid[:-1]
        if p == 1 and m == 1:
            grid = [[grid[0][0]]*2]*2
        return which, [[x.tolist() for x in r] for r in grid]
    i, j = int(rng.integers(p)), int(rng.integers(m))
    if u < .7:
        # not causal
        if which == 'num':
            grid[i][j] = np.ones(len(raw.den[i][j]) + 1)
        else:
            big = max(((len(raw.num[a][b]), a, b) for a in range(p)
                       for b in range(m)))
            if big[0] == 1:
                return 'num', [[np.ones(len(raw.den[a][b]) + 1).tolist()
                                for b in range(m)] for a in range(p)]
            grid[big[1]][big[2]] = np.ones(big[0]-1)
    elif u < .8:
        which = 'den'
        grid = [[x.copy() for x in r] for r in raw.den]
        grid[i][j] = np.zeros(2)
    elif u < .9:
        grid[i][j] = grid[i][j] + 1j
    else:
        return which, gen.pick(rng, ('abc', [['a']], {'a': 1}))
    return which, ([[x.tolist() for x in r] for r in grid]
                   if p*m > 1 else grid[0][0].tolist())


def nonfinite(rng, mon, G, attr, value, good, history):
    """Data that may or may not be accepted; a refusal must be clean."""
    history.append((attr, 'nonfinite'))
    if attempt(mon, G, attr, value):
        demand(mon, G, attr, good, history)


def spoil(rng, x):
    x = np.array(x, dtype=float)
    x.flat[int(rng.integers(x.size))] = gen.pick(rng, (np.nan, np.inf))
    return x


def state(rng, mon):
    raw = gen.ss(rng, nmax=4, gain=.1, hi=2)
    G = mon.result('build', raw.build, rng)
    (p, m), n = raw.shape, raw.n
    history = [('start',) + tuple(x.tolist() for x in
                                  (raw.a, raw.b, raw.c, raw.d)) + (raw.dt,)]
    for _ in range(int(rng.integers(1, 7))):
        u = rng.random()
        if u < .5:
            which = 'd' if n == 0 else gen.pick(rng, 'abcd')
            if which == 'a':
                new = gen.a_matrix(rng, n, raw.dt)[0]
            else:
                new = gen.matrix(rng, *{'b': (n, m), 'c': (p, n),
                                        'd': (p, m)}[which])
            history.append((which, new.tolist()))
            val = gen.pick(rng, [new, new.tolist(),
                                 new.ravel() if new.shape[0] == 1 else new,
                                 float(new[0, 0]) if new.size == 1 else new])
            demand(mon, G, which, val, history)
            setattr(raw, which, new)
        elif u < .65:
            raw.dt = new_dt(rng)
            history.append(('SamplingPeriod', raw.dt))
            demand(mon, G, 'SamplingPeriod', raw.dt, history)
        elif u < .75:
            meta(rng, mon, G, raw.dt, history)
        elif u < .8:
            which = 'd' if n == 0 else gen.pick(rng, 'abcd')
            good = getattr(raw, which)
            nonfinite(rng, mon, G, which, spoil(rng, good), good, history)
        else:
            bad = bad_state(rng, raw)
            history.append(('bad',) + tuple(repr(x) for x in bad))
            refuse(mon, G, *bad, history)
        fresh = mon.result('build', gen.SS(raw.a, raw.b, raw.c, raw.d,
                                           raw.dt).build)
        coherent(mon, G, fresh, history)
    used(rng, mon, G, fresh, history)
    mon.nontrivial(repr(history),
                   bucket=('S', raw.shape, tuple(h[0] for h in history)),
                   sample={'history': history[:3]})


def bad_state(rng, raw):
    u = rng.random()
    (p, m), n = raw.shape, raw.n
    if u < .3:
        return bad_common(rng, 'S')
    if n == 0:
        which = gen.pick(rng, 'abcd')
        if which == 'd':
            return 'd', np.ones((p+1, m))
        return which, np.ones((1, 1))
    which = gen.pick(rng, 'abcd')
    shp = {'a': (n, n), 'b': (n, m), 'c': (p, n), 'd': (p, m)}[which]
    if u < .75:
        new = tuple(np.add(shp, gen.pick(rng, ((1, 0), (0, 1), (1, 1),
                                               (2, 0), (-1, 0)))))
        if 0 in new:
            new = (shp[0] + 1, shp[1] + 1)
        if 1 in shp and 1 in new and max(shp) == max(new):
            new = (new[0] + 2, new[1] + 2)
        return which, gen.matrix(rng, *new)
    if u < .9:
        return which, np.ones(shp)*1j
    return which, gen.pick(rng, ('abc', [['a']], {'a': 1}))


WORKLOADS = [Workload('transfer', transfer, 4000),
             Workload('state', state, 5000)]
