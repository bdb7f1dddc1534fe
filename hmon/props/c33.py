"""Calls are repeatable and leave the state of the process alone."""
import contextlib
import copy
import io
import os
import warnings

import harold as h
import matplotlib
import numpy as np
from matplotlib import pyplot as plt

from .. import gen, oracle
from ..core import Skip, Workload
from . import c27

ID = 'C33'
RULE = ('distinct sequences of calls of which every call was repeated, in '
        'another order and on fresh copies, with the state of the process '
        'compared around each of them')

# the only function of which the starting vector shows in the result
RANDOM = {'cancellation_distance', 'random_state_model'}
SOURCES = (c27.binary, c27.unary, c27.convert, c27.respond, c27.helpers,
           c27.build)
PLOTS = (h.bode_plot, h.nyquist_plot, h.step_response_plot,
         h.impulse_response_plot)


def generator():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def process():
    """What every other part of the program sees, too."""
    return {'numpy error handling': np.geterr(),
            'numpy error callback': np.geterrcall(),
            'numpy print options': repr(np.get_printoptions()),
            'warning filters': list(warnings.filters),
            'matplotlib parameters': repr(list(dict.items(
                matplotlib.rcParams))),
            'backend': matplotlib.get_backend(),
            'interactive': matplotlib.is_interactive(),
            'figures': plt.get_fignums(),
            'directory': os.getcwd(),
            'environment': dict(os.environ)}


def outcome(x):
    """Numbers and texts in a nested result, in order."""
    if isinstance(x, h.State):
        return ['State', x.SamplingPeriod, x.DiscretizedWith] + \
            list(x.matrices) + [x.poles, x.zeros]
    if isinstance(x, h.Transfer):
        n, d = oracle.parts(x)
        return ['Transfer', x.SamplingPeriod, x.DiscretizedWith] + \
            [v for r in n + d for v in r] + [x.poles, x.zeros]
    if isinstance(x, (list, tuple)):
        return [len(x)] + [v for y in x for v in outcome(y)]
    return [x]


def same(x, y):
    if len(x) != len(y):
        return False
    for u, v in zip(x, y):
        if isinstance(u, (str, type(None))) or isinstance(v, str):
            if u != v:
                return False
            continue
        u, v = np.asarray(u), np.asarray(v)
        if u.shape != v.shape or u.dtype != v.dtype:
            return False
        if u.dtype.kind not in 'iufcb':
            continue
        if u.tobytes() == v.tobytes():
            continue
        size = np.max(np.abs(v[np.isfinite(v)]), initial=0)
        if not np.allclose(u, v, rtol=1e-6, atol=1e-6*size, equal_nan=True):
            return False
    return True


def run(mon, name, fn, args, kw, own=False):
    """One call, on copies or the arguments themselves, with the process
    compared around it."""
    # any change shows, whatever the settings are
    modes = ('ignore', 'warn')
    np.seterr(**{k: modes[(mon.events[name] + i) % 2]
                 for i, k in enumerate(np.geterr())})
    if not own:
        args, kw = copy.deepcopy((args, kw))
    before = process()
    text = io.StringIO()
    mon.events[name] += 1
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        inner = list(warnings.filters)
        with contextlib.redirect_stdout(text), \
                contextlib.redirect_stderr(text):
            try:
                res = fn(*args, **kw)
                res = outcome(res)
            except Exception as e:
                res = ['raised', type(e).__name__]
        mon.check(warnings.filters == inner, f'{name}:process',
                  'changed the warning filters')
    after = process()
    for k in before:
        mon.check(before[k] == after[k], f'{name}:process',
                  f'changed the {k}', before=repr(before[k])[:300],
                  after=repr(after[k])[:300])
    mon.check(text.getvalue() == '', f'{name}:prints',
              f'printed {text.getvalue()[:200]!r}')
    return res


def draw(rng):
    c = c27.Collector()
    for _ in range(50):
        try:
            gen.pick(rng, SOURCES)(rng, c)
        except Skip:
            continue
        if c.calls:
            return c.calls[0]
    raise Skip('no call drawn')


def repeat(rng, mon):
    calls = []
    for _ in range(int(rng.integers(2, 6))):
        calls.append(draw(rng))
    if rng.random() < .3:
        # nearly the same call again: a cache must not mix them up
        name, fn, args, kw = calls[-1]
        args2 = copy.deepcopy(args)
        if len(calls) > 1:
            calls.insert(0, (name, fn, args2, kw))
        for x in args2:
            if isinstance(x, h.State) and x.NumberOfStates:
                if rng.random() < .5:
                    x.d = x.d + 1.
                else:
                    x.a = x.a*4. if x.SamplingSet == 'R' else x.a/2
            elif isinstance(x, np.ndarray) and x.dtype.kind == 'f' and \
                    x.ndim == 2:
                x += .5
    first, drawn = [], []
    for c in calls:
        np.random.seed(int(rng.integers(2**31)))
        first.append(run(mon, *c))
        drawn.append(generator())
    for i in rng.permutation(len(calls)):
        name = calls[i][0]
        np.random.seed(int(rng.integers(2**31)))
        again = run(mon, *calls[i])
        mon.check(generator() != drawn[i], f'{name}:seeds',
                  'resets the random number generator')
        if name in RANDOM:
            continue
        mon.check(same(first[i], again), f'{name}:repeat',
                  'gives another result when called again',
                  first=repr(first[i])[:400], again=repr(again)[:400],
                  calls=[c[0] for c in calls])
    mon.nontrivial([(c[0], c27.state_of(c[2])) for c in calls],
                   bucket=tuple(sorted({c[0] for c in calls}))[:2],
                   sample={'calls': [c[0] for c in calls]})


def reused(rng, mon):
    """The same object with other contents gives what a new one gives."""
    name, fn, args, kw = draw(rng)
    xs = [x for x in args if isinstance(x, (h.State, h.Transfer))]
    if not xs or name in RANDOM:
        raise Skip('no model')
    run(mon, name, fn, args, kw, own=True)
    x = gen.pick(rng, xs)
    f = 4. if x.SamplingSet == 'R' else .5
    try:
        if isinstance(x, h.State):
            if x.NumberOfStates and rng.random() < .7:
                x.a = x.a*f
            else:
                x.d = x.d + 1.
        elif isinstance(x.num, list):
            x.num = [[u*f for u in r] for r in x.num]
        elif rng.random() < .7:
            x.den = x.den*f**np.arange(x.den.size)
        else:
            x.num = x.num*f
    except ValueError:
        raise Skip('no such model')
    want = run(mon, name, fn, args, kw)
    got = run(mon, name, fn, args, kw, own=True)
    mon.check(same(want, got), f'{name}:reused',
              'an earlier call on the same object changes the result',
              first=repr(want)[:400], again=repr(got)[:400])
    mon.nontrivial(name, c27.state_of(args), bucket=('reused', name),
                   sample={'call': name})


def figures(rng, mon):
    """Plots add their own figure and nothing else."""
    fn = gen.pick(rng, PLOTS)
    shp = gen.shape(rng, 2)
    G = [c27.some_model(rng, gen.pick(rng, ('ss', 'tf')), shp=shp, nmax=2)
         for _ in range(int(rng.integers(1, 3)))]
    old = plt.figure()
    ax = old.add_subplot()
    ax.plot([0, 1], [2, 3])
    name = fn.__name__
    try:
        before = process()
        mon.events[name] += 1
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                fig = fn(G if len(G) > 1 else G[0])
            except ValueError:
                raise Skip('not drawn')
        after = process()
        mon.check(set(before['figures']) <= set(after['figures']) and
                  len(after['figures']) <= len(before['figures']) + 1,
                  f'{name}:figures', f"{before['figures']} became "
                  f"{after['figures']}")
        for k in before:
            mon.check(k == 'figures' or before[k] == after[k],
                      f'{name}:process', f'changed the {k}')
        mon.check(len(old.axes) == 1 and len(ax.lines) == 1 and fig is not old,
                  f'{name}:other-figure', 'drew into an existing figure')
        mon.nontrivial(name, [c27.state_of(g) for g in G], bucket=name)
    finally:
        plt.close('all')


def draws(rng, mon):
    """Random models follow numpy's generator and nothing else."""
    n = int(rng.integers(1, 7))
    kw = dict(p=int(rng.integers(1, 3)), m=int(rng.integers(1, 3)),
              dt=gen.some_dt(rng), stable=bool(rng.random() < .5))
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    a = run(mon, 'random_state_model', h.random_state_model, [n], kw)
    b = run(mon, 'random_state_model', h.random_state_model, [n], kw)
    np.random.seed(seed)
    c = run(mon, 'random_state_model', h.random_state_model, [n], kw)
    mon.check(same(a, c), 'random_state_model:repeat', 'differs although the '
              'generator was seeded alike', first=repr(a)[:300],
              again=repr(c)[:300])
    mon.check(a[0] == 'raised' or not same(a, b), 'random_state_model:stuck',
              'the same model is drawn twice in a row', first=repr(a)[:300])
    mon.nontrivial(n, kw, seed, bucket=('draws', n))


WORKLOADS = [Workload('repeat', repeat, 3500),
             Workload('reused', reused, 3500),
             Workload('figures', figures, 120),
             Workload('draws', draws, 400)]
