"""Nothing given to the library is changed, and models own their data."""
import operator
from collections import Counter

import harold as h
import numpy as np
from harold import State, Transfer

from .. import algebra, gen
from ..core import Skip, Violation, Workload
from .c07 import frozen, snapshot

ID = 'C27'
RULE = ('distinct (operation, arguments) pairs whose arguments were compared '
        'bit by bit before and after, and whose results were overwritten')

ANY = (ValueError, IndexError, TypeError, AttributeError, KeyError,
       NotImplementedError, ZeroDivisionError, np.linalg.LinAlgError)


def state_of(x):
    """A comparable deep copy of an argument."""
    if isinstance(x, (State, Transfer)):
        return (type(x).__name__, tuple(sorted(snapshot(x).items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(state_of(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, state_of(v)) for k, v in sorted(x.items()))
    return frozen(x)


def models(x):
    if isinstance(x, (State, Transfer)):
        return [x]
    if isinstance(x, (list, tuple)):
        return [m for v in x for m in models(v)]
    return []


def overwrite(x):
    """Change every array and list reachable from x, in place."""
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable and x.dtype.kind in 'iufc':
            x += np.array(7).astype(x.dtype)
    elif isinstance(x, (State, Transfer)):
        for v in vars(x).values():
            overwrite(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            overwrite(v)
        if isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    x[i] = v + 7
                elif isinstance(v, np.ndarray):
                    x[i] = v + 7 if v.dtype.kind in 'iufc' else v
            x.append(7.)


class Collector:
    """Stands in for the monitor to collect calls without making them."""

    def __init__(self):
        self.calls = []
        self.events = Counter()

    def call(self, name, fn, *args, **kw):
        return fn(*args, **kw)

    def check(self, *args, **kw):
        pass

    nontrivial = check


def judge(mon, name, fn, args, kw=None, bucket=None):
    """Run fn on args, compare the arguments, then look for shared storage."""
    kw = kw or {}
    if isinstance(mon, Collector):
        mon.calls.append((name, fn, args, kw))
        return None
    before = [state_of(x) for x in args]
    kbefore = state_of(kw)
    try:
        res = mon.call(name, fn, *args, **kw)
        failed = False
    except ANY as e:
        res, failed = e, True
    for i, x in enumerate(args):
        mon.check(state_of(x) == before[i], f'{name}:changed-argument',
                  f'argument {i} was changed by the call', args=list(args),
                  failed=failed)
    mon.check(state_of(kw) == kbefore, f'{name}:changed-argument',
              'a keyword argument was changed by the call', kw=kw)
    if failed:
        mon.nontrivial(name, *before, bucket=f'{name}:raised')
        return None
    given = models(list(args))
    made = [m for m in models(res) if not any(m is g for g in given)]
    mon.nontrivial(name, *before, bucket=bucket or name)
    if not made:
        return res
    # other models must not follow when the results are changed
    then = [state_of(g) for g in given]
    keep = [x for x in args if isinstance(x, np.ndarray)]
    kthen = [state_of(x) for x in keep]
    first = [state_of(m) for m in made]
    overwrite(list(args))
    for m, s in zip(made, first):
        mon.check(state_of(m) == s, f'{name}:shares-with-argument',
                  'changing the argument afterwards changed the result',
                  operation=name)
    then = [state_of(g) for g in given]
    kthen = [state_of(x) for x in keep]
    for k, m in enumerate(made):
        rest = [state_of(x) for x in made[k+1:]]
        overwrite(m)
        mon.check(rest == [state_of(x) for x in made[k+1:]],
                  f'{name}:results-share', 'two models returned by the call '
                  'share storage', operation=name)
    mon.check(then == [state_of(g) for g in given] and
              kthen == [state_of(x) for x in keep],
              f'{name}:shares-with-argument',
              'changing the result afterwards changed the argument',
              operation=name)
    return res


def order(rng, x):
    """The same values in a C or Fortran array, or a view of a larger one."""
    f = gen.pick(rng, 'CFVT')
    if x.ndim != 2 or f == 'C':
        return np.array(x, order='C')
    if f == 'F':
        return np.array(x, order='F')
    if f == 'T':
        return np.ascontiguousarray(x.T).T
    big = np.zeros((x.shape[0]+2, x.shape[1]+2), x.dtype)
    big[1:-1, 1:-1] = x
    return big[1:-1, 1:-1]


def dress(rng, x):
    """The form in which an array argument is given."""
    f = gen.pick(rng, ('array', 'array', 'array', 'list', 'int'))
    if f == 'list':
        return x.tolist()
    if f == 'int':
        return order(rng, np.round(x).astype(int))
    return order(rng, x)


def some_model(rng, kind=None, dt=..., shp=None, nmax=4):
    dt = gen.some_dt(rng) if dt is ... else dt
    shp = shp or gen.shape(rng, 3)
    kind = kind or gen.pick(rng, ('ss', 'ss', 'tf', 'tf', 'ssgain', 'tfgain'))
    raw = algebra.operand(rng, dt, shp, kind)
    return raw.build(rng)


# -- construction -----------------------------------------------------------

def build(rng, mon):
    dt = gen.some_dt(rng)
    shp = gen.shape(rng, 3)
    form = gen.pick(rng, ('State', 'State', 'State-gain', 'Transfer',
                          'Transfer', 'Transfer-1d', 'Transfer-gain',
                          'common-den', 'validate', 'set', 'set'))
    p, m = shp
    if form == 'State':
        n = int(rng.integers(1, 5))
        a = [dress(rng, np.round(rng.normal(size=s)*4, 1))
             for s in ((n, n), (n, m), (p, n), (p, m))]
        if rng.random() < .3:
            a = a[:3]
        if rng.random() < .1 and n == m == p:
            a = [a[0]]*3
        kw = {} if dt is None else {'dt': dt}
        judge(mon, 'State', State, a, kw)
    elif form == 'State-gain':
        judge(mon, 'State', State, [dress(rng, rng.normal(size=shp)*4)],
              {} if dt is None else {'dt': dt}, bucket='State:gain')
    elif form == 'Transfer':
        num = [[dress(rng, gen.coeffs(rng, int(rng.integers(3))))
                for _ in range(m)] for _ in range(p)]
        den = [[dress(rng, gen.coeffs(rng, int(rng.integers(2, 4))))
                for _ in range(m)] for _ in range(p)]
        judge(mon, 'Transfer', Transfer, [num, den],
              {} if dt is None else {'dt': dt}, bucket='Transfer:nested')
    elif form == 'common-den':
        num = [[dress(rng, gen.coeffs(rng, int(rng.integers(3))))
                for _ in range(m)] for _ in range(p)]
        den = dress(rng, gen.coeffs(rng, int(rng.integers(2, 4))))
        judge(mon, 'Transfer', Transfer, [num, den],
              {} if dt is None else {'dt': dt}, bucket='Transfer:common')
    elif form == 'Transfer-1d':
        num = dress(rng, gen.coeffs(rng, int(rng.integers(3))))
        den = dress(rng, gen.coeffs(rng, int(rng.integers(2, 4))))
        if rng.random() < .3 and isinstance(num, np.ndarray):
            num, den = np.atleast_2d(num), np.atleast_2d(den)
        judge(mon, 'Transfer', Transfer, [num, den],
              {} if dt is None else {'dt': dt}, bucket='Transfer:siso')
    elif form == 'Transfer-gain':
        a = [dress(rng, np.round(rng.normal(size=shp)*4, 1))]
        if rng.random() < .5:
            a.append(dress(rng, np.full(shp, 2.)))
        judge(mon, 'Transfer', Transfer, a,
              {} if dt is None else {'dt': dt}, bucket='Transfer:gain')
    elif form == 'validate':
        if rng.random() < .5:
            n = int(rng.integers(1, 5))
            a = [order(rng, rng.normal(size=s))
                 for s in ((n, n), (n, m), (p, n), (p, m))]
            judge(mon, 'State.validate_arguments', State.validate_arguments,
                  a)
        else:
            num = [[gen.coeffs(rng, 1) for _ in range(m)] for _ in range(p)]
            den = [[gen.coeffs(rng, 2) for _ in range(m)] for _ in range(p)]
            judge(mon, 'Transfer.validate_arguments',
                  Transfer.validate_arguments, [num, den])
    else:
        assign(rng, mon)


def assign(rng, mon):
    """Assigned arrays are not shared with the model either."""
    G = some_model(rng, gen.pick(rng, ('ss', 'tf')))
    if isinstance(G, State):
        attr = gen.pick(rng, 'abcd')
        old = getattr(G, attr)
        v = order(rng, np.round(rng.normal(size=old.shape)*3, 1))
    else:
        attr = gen.pick(rng, ('num', 'den'))
        old = getattr(G, attr)
        other = G.den if attr == 'num' else G.num

        def one(e):
            return gen.coeffs(rng, e.shape[-1]-1)
        if isinstance(old, list):
            v = [[one(e) for e in r] for r in old]
        else:
            v = order(rng, np.atleast_2d(one(old)))
    name = f'{type(G).__name__}.{attr}='
    before = state_of(v)
    mon.events[name] += 1
    try:
        setattr(G, attr, v)
    except ANY:
        mon.check(state_of(v) == before, f'{name}:changed-argument',
                  'the assigned value was changed', model=G)
        raise Skip('assignment refused')
    mon.check(state_of(v) == before, f'{name}:changed-argument',
              'the assigned value was changed', model=G)
    s = state_of(G)
    overwrite(v)
    mon.check(state_of(G) == s, f'{name}:shares-with-argument',
              'changing the assigned value afterwards changed the model',
              operation=name)
    v = state_of(v)
    mon.nontrivial(name, s, bucket=name)


# -- operators --------------------------------------------------------------

OPS = (('+', operator.add), ('-', operator.sub), ('*', operator.mul),
       ('@', operator.matmul), ('/', operator.truediv))


def binary(rng, mon):
    name, op = gen.pick(rng, OPS)
    dt = gen.some_dt(rng)
    shp = gen.shape(rng, 3)
    k1 = gen.pick(rng, algebra.KINDS)
    k2 = gen.pick(rng, algebra.KINDS[:4] if k1 == 'const' else algebra.KINDS)
    if name == '@':
        s2 = (shp[1], int(rng.integers(1, 4)))
    elif name == '/':
        s2 = (shp[1], shp[1])
    else:
        s2 = shp
    if rng.random() < .25:
        shp = (1, 1)
    if rng.random() < .25:
        s2 = (1, 1)
    if name == '*' and rng.random() < .4:
        s2 = (shp[1], int(rng.integers(1, 4)))
    x = algebra.operand(rng, dt, shp, k1).build(rng)
    y = algebra.operand(rng, dt, s2, k2).build(rng)
    if rng.random() < .1 and not isinstance(x, np.ndarray):
        y = x
    if isinstance(x, np.ndarray):
        x = order(rng, x)
    if isinstance(y, np.ndarray):
        y = order(rng, y)
    judge(mon, name, op, [x, y], bucket=f'{k1}{name}{k2}')


def unary(rng, mon):
    G = some_model(rng)
    p, m = G.shape
    from .c08 import index
    pick = gen.pick(rng, ('neg', 'getitem', 'getitem', 'setitem', 'to_array',
                          'repr', 'dcgain', 'attributes', 'pole_properties'))
    kind = type(G).__name__
    if pick == 'neg':
        judge(mon, f'-{kind}', operator.neg, [G])
    elif pick == 'getitem':
        i = (index(rng, p), index(rng, m))
        if rng.random() < .2:
            i = (slice(None), slice(None))
        elif rng.random() < .1:
            i = i[0]
        # the tuple is what the operator is given
        judge(mon, f'{kind}[]', operator.getitem, [G, i])
    elif pick == 'setitem':
        s = state_of(G)
        try:
            mon.call('setitem', operator.setitem, G, (0, 0), 3.)
        except ANY:
            mon.check(state_of(G) == s, f'{kind}[]=:changed-argument',
                      'a refused assignment changed the model', model=G)
        mon.nontrivial('setitem', s, bucket='setitem')
    elif pick == 'to_array':
        judge(mon, f'{kind}.to_array', lambda g: g.to_array(), [G])
    elif pick == 'repr':
        judge(mon, f'{kind}.repr', repr, [G])
    elif pick == 'dcgain':
        judge(mon, f'{kind}.dcgain', lambda g: g.dcgain, [G])
    elif pick == 'pole_properties':
        judge(mon, f'{kind}.pole_properties', lambda g: g.pole_properties(),
              [G])
    else:
        judge(mon, f'{kind}.attributes',
              lambda g: [getattr(g, k) for k in
                         ('poles', 'zeros', 'shape', 'SamplingPeriod',
                          'SamplingSet', 'NumberOfInputs', 'NumberOfOutputs',
                          'DiscretizedWith', 'DiscretizationMatrix',
                          'PrewarpFrequency')] and None, [G])


# -- functions of models ----------------------------------------------------

def convert(rng, mon):
    pick = gen.pick(rng, ('tts', 'stt', 'disc', 'disc', 'undisc', 'minreal',
                          'hess', 'kalman', 'feedback', 'concat', 'tts-raw',
                          'stt-raw', 'minreal-raw'))
    if pick == 'tts':
        judge(mon, 'transfer_to_state', h.transfer_to_state,
              [some_model(rng, gen.pick(rng, ('tf', 'tf', 'tfgain')))])
    elif pick == 'tts-raw':
        T = some_model(rng, gen.pick(rng, ('tf', 'tf', 'tfgain')), None)
        judge(mon, 'transfer_to_state', h.transfer_to_state,
              [T.polynomials], {'output': gen.pick(rng, ('system',
                                                         'matrices'))},
              bucket='transfer_to_state:raw')
    elif pick == 'stt':
        judge(mon, 'state_to_transfer', h.state_to_transfer,
              [some_model(rng, gen.pick(rng, ('ss', 'ss', 'ssgain')))])
    elif pick == 'stt-raw':
        S = some_model(rng, 'ss', None)
        judge(mon, 'state_to_transfer', h.state_to_transfer,
              [tuple(order(rng, x) for x in S.matrices)],
              {'output': gen.pick(rng, ('system', 'polynomials'))},
              bucket='state_to_transfer:raw')
    elif pick == 'minreal':
        judge(mon, 'minimal_realization', h.minimal_realization,
              [some_model(rng)])
    elif pick == 'minreal-raw':
        S = some_model(rng, 'ss', None)
        judge(mon, 'minimal_realization', h.minimal_realization,
              [S], bucket='minimal_realization:ss')
    elif pick == 'hess':
        judge(mon, 'hessenberg_realization', h.hessenberg_realization,
              [some_model(rng)],
              {'form': gen.pick(rng, ('c', 'o')), 'compute_T':
               bool(rng.random() < .5), 'invert': bool(rng.random() < .3)})
    elif pick == 'kalman':
        judge(mon, 'kalman_decomposition', h.kalman_decomposition,
              [some_model(rng)], {'compute_T': bool(rng.random() < .5)})
    elif pick == 'concat':
        judge(mon, 'concatenate_state_matrices',
              h.concatenate_state_matrices,
              [some_model(rng, gen.pick(rng, ('ss', 'ssgain')))])
    elif pick == 'feedback':
        dt = gen.some_dt(rng)
        p, m = gen.shape(rng, 3)
        K1, K2 = (gen.pick(rng, ('ss', 'tf', 'ssgain', 'tfgain'))
                  for _ in range(2))
        G = some_model(rng, K1, dt, (p, m))
        H = some_model(rng, K2, dt, (m, p))
        if rng.random() < .1 and p == m:
            H = G
        if rng.random() < .2:
            H = order(rng, np.round(rng.normal(size=(m, p)), 1))
        if rng.random() < .1:
            G, H = H, G
        judge(mon, 'feedback', h.feedback, [G, H],
              {'negative': bool(rng.random() < .5)})
    elif pick == 'disc':
        G = some_model(rng, gen.pick(rng, ('ss', 'tf', 'tf')), None)
        meth = gen.pick(rng, ('zoh', 'foh', 'tustin', 'bilinear', '>>',
                              'forward euler', '<<', '>>', 'lft'))
        kw, args = {'method': meth}, [G, .25]
        if meth == 'lft':
            kw['q'] = order(rng, np.array([[1., .5], [.5, .125]]))
        elif meth in ('tustin', 'bilinear') and rng.random() < .4:
            kw['prewarp_at'] = .5
        R = judge(mon, 'discretize', h.discretize, args, kw,
                  bucket=f'discretize:{meth}')
        if R is not None and 'q' in kw and R is not G:
            s = state_of(R)
            overwrite(kw['q'])
            mon.check(state_of(R) == s, 'discretize:shares-with-argument',
                      'changing q afterwards changed the model')
    else:
        G = some_model(rng, gen.pick(rng, ('ss', 'tf', 'tf')), None)
        meth = gen.pick(rng, ('zoh', 'tustin', 'bilinear', '>>', '<<', None))
        try:
            D = h.discretize(G, .125, method=meth or 'zoh')
        except ANY:
            raise Skip('refused')
        kw = {} if meth is None or rng.random() < .5 else {'method': meth}
        judge(mon, 'undiscretize', h.undiscretize, [D], kw,
              bucket=f'undiscretize:{meth}')


def respond(rng, mon):
    """Functions that return arrays."""
    pick = gen.pick(rng, ('freq', 'step', 'impulse', 'linear', 'linear',
                          'norm', 'zeros', 'zeros-raw', 'kalman', 'stair',
                          'cdist', 'lqr', 'lyap', 'acker'))
    if pick == 'freq':
        a = [some_model(rng)]
        if rng.random() < .7:
            a.append(np.linspace(.1, 2, 5)[::gen.pick(rng, (1, -1))])
        judge(mon, 'frequency_response', h.frequency_response, a,
              {'w_unit': gen.pick(rng, ('rad/s', 'Hz')),
               'output_unit': gen.pick(rng, ('rad/s', 'Hz'))})
    elif pick in ('step', 'impulse'):
        G = some_model(rng)
        fn = (h.simulate_step_response if pick == 'step' else
              h.simulate_impulse_response)
        a = [G]
        if rng.random() < .7:
            a.append(np.arange(20)*(G.SamplingPeriod or .05))
        judge(mon, fn.__name__, fn, a)
    elif pick == 'linear':
        G = some_model(rng)
        N, m = 20, G.NumberOfInputs
        u = order(rng, rng.normal(size=(N, m)))
        kw = {}
        t = np.arange(N)*(G.SamplingPeriod or .05)
        a = [G, u, t]
        if rng.random() < .4:
            kw['x0'] = rng.normal(size=getattr(G, 'NumberOfStates', 0))
        if rng.random() < .3:
            kw['per_channel'] = True
        judge(mon, 'simulate_linear_system', h.simulate_linear_system, a, kw)
    elif pick == 'norm':
        judge(mon, 'system_norm', h.system_norm, [some_model(rng)],
              {'p': gen.pick(rng, (2, np.inf))})
    elif pick == 'zeros':
        S = some_model(rng, 'ss')
        judge(mon, 'transmission_zeros', h.transmission_zeros,
              list(S.matrices))
    elif pick == 'zeros-raw':
        n, m, p = (int(v) for v in rng.integers(1, 4, 3))
        judge(mon, 'transmission_zeros', h.transmission_zeros,
              [order(rng, rng.integers(-2, 3, s).astype(float))
               for s in ((n, n), (n, m), (p, n), (p, m))],
              bucket='transmission_zeros:integer')
    elif pick == 'kalman':
        fn = gen.pick(rng, (h.controllability_matrix, h.observability_matrix,
                            h.is_kalman_controllable,
                            h.is_kalman_observable,
                            h.controllability_indices))
        S = some_model(rng, 'ss')
        obs = fn in (h.observability_matrix, h.is_kalman_observable)
        x = gen.pick(rng, ('model', 'tuple'))
        if fn is h.controllability_indices:
            arg = [order(rng, S.a), order(rng, S.b)]
        elif x == 'model':
            arg = [S]
        else:
            arg = [(order(rng, S.a), order(rng, S.c if obs else S.b))]
        judge(mon, fn.__name__, fn, arg)
    elif pick == 'stair':
        S = some_model(rng, 'ss')
        judge(mon, 'staircase', h.staircase,
              [order(rng, x) for x in S.matrices[:3]],
              {'form': gen.pick(rng, 'co'), 'invert':
               bool(rng.random() < .4), 'compute_T':
               bool(rng.random() < .5)})
    elif pick == 'cdist':
        S = some_model(rng, 'ss')
        judge(mon, 'cancellation_distance', h.cancellation_distance,
              [order(rng, S.a), order(rng, S.b)])
    elif pick == 'lqr':
        S = some_model(rng, 'ss')
        n, m, p = S.NumberOfStates, S.NumberOfInputs, S.NumberOfOutputs
        on = gen.pick(rng, ('', 'y'))
        k = p if on else n
        a = [S, order(rng, np.eye(k))]
        kw = {}
        if rng.random() < .7:
            kw['R'] = order(rng, np.eye(m)*2)
        if rng.random() < .4:
            kw['S'] = order(rng, np.zeros((n, m)))
        if on:
            kw['weight_on'] = 'output'
        judge(mon, 'lqr', h.lqr, a, kw)
    elif pick == 'lyap':
        n = int(rng.integers(1, 8))
        A = rng.normal(size=(n, n))*.3
        Y = rng.normal(size=(n, n))
        a = [order(rng, A), order(rng, Y + Y.T)]
        kw = {'form': gen.pick(rng, 'cd')}
        if rng.random() < .3:
            a.append(order(rng, np.eye(n) + .1*rng.normal(size=(n, n))))
        judge(mon, 'lyapunov_eq_solver', h.lyapunov_eq_solver, a, kw)
    else:
        S = some_model(rng, 'ss', shp=(1, 1))
        loc = gen.expand(gen.roots(rng, S.NumberOfStates, None))
        judge(mon, 'ackermann', h.ackermann,
              [S, gen.pick(rng, (np.array(loc), list(loc)))])


def helpers(rng, mon):
    """Polynomial and linear algebra helpers."""
    pick = gen.pick(rng, ('poly', 'lcm', 'gcd', 'mul', 'add', 'div', 'comp',
                          'svd', 'ker', 'pair', 'slice', 'e_i', 'roots'))
    fs = [dress(rng, gen.poly(gen.roots(rng, int(rng.integers(1, 4)), None)))
          for _ in range(int(rng.integers(2, 4)))]
    arr = [np.array(f) for f in fs]
    x = order(rng, np.round(rng.normal(size=(int(rng.integers(1, 5)),
                                             int(rng.integers(1, 5)))), 1))
    if pick == 'poly':
        judge(mon, 'haroldpoly', h.haroldpoly,
              [gen.pick(rng, (arr[0], fs[0]))])
    elif pick == 'lcm':
        judge(mon, 'haroldlcm', h.haroldlcm, arr,
              {'compute_multipliers': bool(rng.random() < .6)})
    elif pick == 'gcd':
        judge(mon, 'haroldgcd', h.haroldgcd, arr)
    elif pick == 'mul':
        judge(mon, 'haroldpolymul', h.haroldpolymul, fs)
    elif pick == 'add':
        judge(mon, 'haroldpolyadd', h.haroldpolyadd, fs)
    elif pick == 'div':
        judge(mon, 'haroldpolydiv', h.haroldpolydiv, fs[:2])
    elif pick == 'comp':
        judge(mon, 'haroldcompanion', h.haroldcompanion, [fs[0]])
    elif pick == 'svd':
        judge(mon, 'haroldsvd', h.haroldsvd, [x],
              {'also_rank': bool(rng.random() < .5)})
    elif pick == 'ker':
        judge(mon, 'haroldker', h.haroldker, [x],
              {'side': gen.pick(rng, ('left', 'right'))})
    elif pick == 'pair':
        r = gen.expand(gen.roots(rng, int(rng.integers(1, 6)), None))
        judge(mon, 'pair_complex_numbers', h.pair_complex_numbers,
              [gen.pick(rng, (np.array(r), list(r)))])
    elif pick == 'slice':
        judge(mon, 'matrix_slice', h.matrix_slice,
              [x, (int(rng.integers(1, x.shape[0]+1)),
                   int(rng.integers(1, x.shape[1]+1)))],
              {'corner': gen.pick(rng, ('nw', 'ne', 'sw', 'se'))})
    else:
        judge(mon, 'e_i', h.e_i, [5, [0, 2]])


# -- histories --------------------------------------------------------------

def step(rng, pool, dt):
    """One more operation on members of the pool."""
    G = gen.pick(rng, pool)
    H = gen.pick(rng, pool)
    k = float(rng.integers(-3, 4))
    p, m = G.shape
    choices = {
        '+': lambda: G + H, '-': lambda: G - H, '*': lambda: G * H,
        '@': lambda: G @ H, 'neg': lambda: -G, 'scale': lambda: k*G,
        'shift': lambda: G + k, 'rsub': lambda: k - G,
        'array': lambda: np.ones((p, p)) @ G,
        'slice': lambda: G[int(rng.integers(p)), :],
        'col': lambda: G[:, [int(rng.integers(m))]],
        'all': lambda: G[:, :], 'neg2': lambda: -(-G),
        'feedback': lambda: h.feedback(G, H),
        'tts': lambda: h.transfer_to_state(G),
        'stt': lambda: h.state_to_transfer(G),
        'minreal': lambda: h.minimal_realization(G),
        'hess': lambda: h.hessenberg_realization(G),
        'ident': lambda: np.eye(p) @ G, 'zero': lambda: 0*G,
        'plus0': lambda: G + 0, 'times1': lambda: G*1, 'over1': lambda: G/1,
        'rebuild': lambda: (State(*G.matrices, dt=dt) if
                            isinstance(G, State) else
                            Transfer(*G.polynomials, dt=dt)),
        'gain': lambda: type(G)(G.to_array(), dt=dt),
        'conv': lambda: (h.discretize(G, .25, gen.pick(
            rng, ('zoh', 'tustin', '>>'))) if dt is None else
            h.undiscretize(G)),
        'look': lambda: (G.poles, G.zeros, G.dcgain, repr(G),
                         G.pole_properties())}
    name = gen.pick(rng, tuple(choices))
    return name, G, H, choices[name]


def history(rng, mon):
    """A pool of models grown by operations on its members."""
    dt = gen.some_dt(rng)
    shp = gen.pick(rng, ((1, 1), (2, 2), (2, 1), (1, 2), (2, 2)))
    pool = [some_model(rng, k, dt, shp) for k in
            ('ss', 'tf', gen.pick(rng, ('ssgain', 'tfgain', 'ss', 'tf')))]
    names = ['given']*len(pool)
    kept = [state_of(g) for g in pool]
    start = kept[:]
    done = []
    for _ in range(int(rng.integers(4, 12))):
        name, G, H, fn = step(rng, pool, dt)
        try:
            R = mon.call(name, fn)
        except ANY:
            R = None
        done.append(name)
        for g, s, nm in zip(pool, kept, names):
            mon.check(state_of(g) == s, f'history:{name}:changed',
                      f'a model ({nm}) was changed', history=done)
        if isinstance(R, (State, Transfer)) and \
                not any(R is g for g in pool) and \
                (R.NumberOfStates if isinstance(R, State) else 1) < 15:
            if isinstance(R, Transfer) and max(
                    len(np.ravel(d)) for r in (R.den if R.shape != (1, 1)
                                               else [[R.den]])
                    for d in r) > 15:
                continue
            if R.SamplingPeriod != dt:
                continue
            pool.append(R)
            names.append(name)
            kept.append(state_of(R))
    for i in rng.permutation(len(pool)):
        overwrite(pool[i])
        kept[i] = state_of(pool[i])
        for j, (g, s) in enumerate(zip(pool, kept)):
            mon.check(state_of(g) == s, 'history:'
                      f'{"/".join(sorted((names[i], names[j])))}:shared',
                      f'models made by {names[i]} and {names[j]} share '
                      'storage', history=done)
    mon.nontrivial('history', start, done, bucket=f'{len(pool)} models')


WORKLOADS = [
    Workload('history', history, 1500),
    Workload('build', build, 2400),
    Workload('binary', binary, 3600),
    Workload('unary', unary, 2000),
    Workload('convert', convert, 2700),
    Workload('respond', respond, 2700),
    Workload('helpers', helpers, 1800),
]
