"""Plots show the responses."""
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from harold import (bode_plot, frequency_response, impulse_response_plot,
                    nyquist_plot, simulate_impulse_response,
                    simulate_step_response, step_response_plot)

from .. import algebra, gen
from ..core import Skip, Workload

ID = 'C30'
RULE = ('distinct figures of which every curve was compared with the '
        'response of the model it stands for')
ASSUMPTIONS = ['figures are made with the Agg backend and not looked at on '
               'a screen']


def some(rng, dt, hi=2, kind=None, slow=True):
    """A model without poles on the frequency axis."""
    for _ in range(40):
        kind_ = kind or gen.pick(rng, ('ss', 'ss', 'tf', 'tf', 'ssgain',
                                       'tfgain'))
        shp = gen.shape(rng, hi) if hi > 1 else (1, 1)
        x = algebra.operand(rng, dt, shp, kind_)
        pl = x.poles()
        d = np.abs(pl.real) if dt is None else np.abs(np.abs(pl)-1)
        if np.all(d > .05):
            break
    else:
        raise Skip('poles on the axis')
    if dt is None and type(x).__name__ == 'SS' and x.n and slow and \
            rng.random() < .5:
        # the same shape of response elsewhere on the frequency axis
        f = float(10.**rng.integers(-3, 4))
        x = gen.SS(x.a*f, x.b*f, x.c, x.d, None)
    return x


def family(rng, hi=2, most=4, discrete=True, **kw):
    k = int(gen.pick(rng, (1, 1, 2, 2, 3, most)))
    out = []
    for _ in range(k):
        dt = gen.pick(rng, (None, None, .1, .5, 2.)) if discrete else None
        out.append(some(rng, dt, hi, **kw))
    return out


def cycle_of(rng, k):
    """A style; fewer entries than models are reused."""
    f = gen.pick(rng, ('none', 'none', 'color', 'line', 'short'))
    if f == 'color':
        return matplotlib.cycler(color=['r', 'g', 'b', 'k', 'm', 'c'])
    if f == 'line':
        return matplotlib.cycler(color=['r', 'g', 'b', 'k'],
                                 linestyle=['-', '--', ':', '-.'])
    if f == 'short':
        return matplotlib.cycler(color=['r', 'g'])
    return None


def extra(rng):
    """Arguments that are passed on to matplotlib."""
    out = {}
    if rng.random() < .2:
        out['figsize'] = (7., 5.)
    if rng.random() < .2:
        out['gridspec_kw'] = gen.pick(rng, ({'hspace': .3}, {'wspace': .1}))
    return out


def passed(mon, key, fig, more, before):
    mon.check(repr(more) == before, f'{key}:arguments',
              'the arguments were changed', now=repr(more), before=before)
    if 'figsize' in more:
        mon.close(fig.get_size_inches(), np.array(more['figsize']),
                  f'{key}:figsize', rtol=1e-9, scale=1.)


def given(rng, xs, models):
    """The argument in its different forms."""
    if len(models) == 1 and rng.random() < .7:
        return models[0]
    return gen.pick(rng, (list, tuple))(models)


def value(x, w, hz):
    """K x p x m response of the raw model at the plotted frequencies."""
    w = np.asarray(w, float)*(2*np.pi if hz else 1)
    return x.at(1j*w if x.dt is None else np.exp(1j*w*x.dt))


def grid(rng, xs):
    lo = rng.integers(-4, 2)
    return np.logspace(lo, lo + int(rng.integers(1, 4)),
                       int(gen.pick(rng, (2, 10, 50))))


def own_range(G, hz, w):
    """The frequencies a figure of this model alone shows."""
    unit = 'Hz' if hz else 'rad/s'
    if w is None:
        _, ww = frequency_response(G, output_unit=unit)
    else:
        _, ww = frequency_response(G, w, w_unit=unit, output_unit=unit)
    return np.asarray(ww)


def layout(mon, key, fig, shape):
    axs = fig.axes
    mon.check(len(axs) == shape[0]*shape[1], f'{key}:axes',
              f'{len(axs)} axes instead of {shape}')
    return np.array(axs, dtype=object).reshape(shape)


def bode(rng, mon):
    xs = family(rng)
    models = [x.build(rng) for x in xs]
    kw = {}
    db, hz, deg = (bool(rng.random() < .5) for _ in range(3))
    for k, v in (('use_db', db), ('use_hz', hz), ('use_degree', deg)):
        if rng.random() < .8:
            kw[k] = v
    db, hz, deg = (kw.get('use_db', False), kw.get('use_hz', True),
                   kw.get('use_degree', True))
    w = grid(rng, xs) if rng.random() < .4 else None
    if w is not None:
        nyq = min([np.inf] + [.5/x.dt*(1 if hz else 2*np.pi) for x in xs
                              if x.dt])
        w = w[w < nyq] if rng.random() < .7 else w
        if np.sum(w < nyq*(1-1e-9)) < 2:
            raise Skip('nothing below the Nyquist frequency')
        kw['w'] = gen.pick(rng, (w.copy(), w.tolist()))
    kw['style'] = cycle_of(rng, len(xs))
    try:
        more = extra(rng)
        before = repr(more)
        fig = mon.result('bode_plot', bode_plot, given(rng, xs, models), **kw,
                         **more)
        passed(mon, 'bode', fig, more, before)
        check_bode(mon, xs, models, fig, w, db, hz, deg)
    finally:
        plt.close('all')
    mon.nontrivial('bode', [x.raw() for x in xs], w, db, hz, deg,
                   bucket=f'bode:{len(xs)}:{w is None}:{db}{hz}{deg}:'
                   f'{kw["style"] is None}')


def one_line(mon, key, ax, label):
    ls = [v for v in ax.get_lines() if v.get_label() == label]
    mon.check(len(ls) == 1, f'{key}:curves', f'{len(ls)} curves {label}')
    return (np.asarray(ls[0].get_xdata(), float),
            np.asarray(ls[0].get_ydata(), float))


def check_bode(mon, xs, models, fig, w, db, hz, deg):
    P = max(x.shape[0] for x in xs)
    M = max(x.shape[1] for x in xs)
    axs = layout(mon, 'bode', fig, (2*P, M))
    total = 0
    for k, (x, G) in enumerate(zip(xs, models)):
        ww = own_range(G, hz, w)
        for i in range(x.shape[0]):
            for j in range(x.shape[1]):
                tag = f'sys_{k}_in_{j}_out_{i}'
                data = dict(curve=tag, raw=x.raw())
                u, mag = one_line(mon, 'bode', axs[2*i, j], f'{tag}_mag')
                v, pha = one_line(mon, 'bode', axs[2*i+1, j], f'{tag}_phase')
                total += 2
                mon.check(np.array_equal(u, v) and u.size == mag.size ==
                          pha.size, 'bode:frequencies', 'phase and magnitude '
                          'differ', **data)
                if w is not None:
                    mon.check(u.size == ww.size, 'bode:frequencies',
                              f'{u.size} points instead of {ww.size}', **data)
                    mon.close(u, ww, 'bode:frequencies', rtol=1e-9,
                              scale=ww, **data)
                else:
                    mon.check(u[0] <= ww[0]*(1+1e-9) and
                              u[-1] >= ww[-1]*(1-1e-9) and
                              np.all(np.diff(u) >= 0), 'bode:range',
                              'the curve does not cover the frequencies of '
                              'its model', shown=[u[0], u[-1]],
                              own=[ww[0], ww[-1]], **data)
                lines = [v for ax in (axs[2*i, j], axs[2*i+1, j])
                         for v in ax.get_lines()
                         if v.get_label().startswith(tag) and
                         v.get_label().endswith('_nyqline')]
                if x.dt is None:
                    mon.check(not lines, 'bode:nyquist', 'drawn for a '
                              'continuous model', **data)
                else:
                    nyq = (.5 if hz else np.pi)/x.dt
                    mon.check(len(lines) == 2, 'bode:nyquist',
                              f'{len(lines)} lines', **data)
                    total += 2
                    for v in lines:
                        mon.close(np.asarray(v.get_xdata(), float),
                                  np.full(2, nyq), 'bode:nyquist',
                                  rtol=1e-9, scale=nyq, **data)
                f = value(x, u, hz)[:, i, j]
                big = np.abs(f)
                ref = np.max(big)
                ok = big > 1e-7*ref
                if ref == 0:
                    mon.check(not np.any(np.isfinite(mag)) and
                              not np.any(np.isfinite(pha)), 'bode:zero',
                              'a curve is shown for a zero entry', **data)
                    continue
                got = 10**(mag/(20 if db else 1))
                mon.close(got[ok], big[ok], 'bode:magnitude', rtol=1e-6,
                          scale=big[ok], **data)
                a = pha/180*np.pi if deg else pha
                mon.close(np.exp(1j*a[ok]), f[ok]/big[ok], 'bode:phase',
                          rtol=1e-6, scale=1., **data)
                if np.all(ok):
                    mon.check(np.all(np.abs(np.diff(a)) <= np.pi*(1+1e-9)),
                              'bode:unwrapped', 'the phase jumps', **data)
                    mon.check(abs(a[0]) <= np.pi*(1+1e-6), 'bode:start',
                              f'the phase starts at {a[0]}', **data)
    n = sum(len(ax.get_lines()) for ax in axs.flat)
    mon.check(n == total, 'bode:curves', f'{n} curves instead of {total}')
    text = ' '.join([t.get_text() for t in fig.texts] +
                    [ax.get_xlabel() + ' ' + ax.get_ylabel() for ax in
                     axs.flat])
    for unit, on in (('[Hz]', hz), ('[rad/s]', not hz), ('[dB]', db),
                     ('[deg]', deg), ('[rad]', not deg)):
        mon.check((unit in text) == on, 'bode:units',
                  f'{unit} in the labels: {unit in text}', labels=text)


def dist(pts, line):
    """Largest distance of the points from a polyline."""
    a, b = line[:-1], line[1:]
    if len(a) == 0:
        return np.max(np.abs(pts - line[0]))
    d = b - a
    L = np.abs(d)**2
    t = np.real((pts[:, None] - a)*np.conj(d))/np.where(L == 0, 1, L)
    t = np.clip(t, 0, 1)
    return np.max(np.min(np.abs(pts[:, None] - (a + t*d)), axis=1))


def nyquist(rng, mon):
    xs = family(rng)
    models = [x.build(rng) for x in xs]
    kw = {}
    if rng.random() < .7:
        kw['use_hz'] = bool(rng.random() < .5)
    hz = kw.get('use_hz', True)
    if rng.random() < .6:
        kw['negative_freqs'] = bool(rng.random() < .5)
    neg = kw.get('negative_freqs', True)
    w = grid(rng, xs) if rng.random() < .5 else None
    if w is not None:
        nyq = min([np.inf] + [.5/x.dt*(1 if hz else 2*np.pi) for x in xs
                              if x.dt])
        if np.sum(w < nyq*(1-1e-9)) < 2:
            raise Skip('nothing below the Nyquist frequency')
        kw['w'] = w.copy()
    kw['style'] = cycle_of(rng, len(xs))
    try:
        more = extra(rng)
        before = repr(more)
        fig = mon.result('nyquist_plot', nyquist_plot,
                         given(rng, xs, models), **kw, **more)
        passed(mon, 'nyquist', fig, more, before)
        check_nyquist(mon, xs, models, fig, w, hz, neg)
    finally:
        plt.close('all')
    mon.nontrivial('nyquist', [x.raw() for x in xs], w, hz, neg,
                   bucket=f'nyquist:{len(xs)}:{w is None}:{hz}:{neg}:'
                   f'{kw["style"] is None}')


def check_nyquist(mon, xs, models, fig, w, hz, neg):
    P = max(x.shape[0] for x in xs)
    M = max(x.shape[1] for x in xs)
    axs = layout(mon, 'nyquist', fig, (P, M))
    for i in range(P):
        for j in range(M):
            here = [(x, G) for x, G in zip(xs, models)
                    if i < x.shape[0] and j < x.shape[1]]
            ls = [np.asarray(v.get_xdata(), float) +
                  1j*np.asarray(v.get_ydata(), float)
                  for v in axs[i, j].get_lines()]
            curves = [v for v in ls if v.size > 1]
            k = 2 if neg else 1
            mon.check(len(curves) == k*len(here), 'nyquist:curves',
                      f'{len(curves)} curves of {len(here)} models with'
                      f'{"" if neg else "out"} negative frequencies')
            if here:
                mon.check(any(v.size == 1 and v[0] == -1 for v in ls),
                          'nyquist:point', 'the critical point is missing')
            for n, (x, G) in enumerate(here):
                ww = own_range(G, hz, w)
                f = value(x, ww, hz)[:, i, j]
                size = np.max(np.abs(f)) + 1e-300
                mine = curves[k*n:k*n+k]
                data = dict(raw=x.raw(), entry=[i, j])
                for c, want in zip(mine, (f, np.conj(f))):
                    if w is not None or len(xs) == 1:
                        mon.check(c.size == f.size, 'nyquist:frequencies',
                                  f'{c.size} points instead of {f.size}',
                                  **data)
                        mon.close(c, want, 'nyquist:value', rtol=1e-6,
                                  scale=size, **data)
                    else:
                        mon.check(dist(want, c) <= .05*size,
                                  'nyquist:range', 'the curve does not '
                                  'cover the frequencies of its model',
                                  **data)


TIME = {'step': (step_response_plot, simulate_step_response),
        'impulse': (impulse_response_plot, simulate_impulse_response)}


def time(rng, mon):
    what = gen.pick(rng, tuple(TIME))
    fn, sim = TIME[what]
    mode = gen.pick(rng, ('auto', 'given'))
    if mode == 'given':
        dt = gen.pick(rng, (None, .1, .5))
        xs = [some(rng, d, 3, slow=False) for d in
              [gen.pick(rng, (None, dt)) for _ in
               range(int(rng.integers(1, 4)))]]
        t = np.arange(int(gen.pick(rng, (2, 11, 40))))*(dt or .05)
    else:
        xs = family(rng, 3)
        t = None
    for x in xs:
        pl = x.poles()
        if x.dt is None and np.any(pl.real > 0) and t is not None and \
                np.max(pl.real)*t[-1] > 30:
            raise Skip('grows too much')
    models = [x.build(rng) for x in xs]
    style = cycle_of(rng, len(xs))
    try:
        more = extra(rng)
        before = repr(more)
        axs = mon.result(fn.__name__, fn, given(rng, xs, models), t=t,
                         style=style, **more)
        passed(mon, what, axs[0, 0].figure, more, before)
        check_time(mon, what, xs, models, axs, sim, t, style)
    finally:
        plt.close('all')
    mon.nontrivial(what, [x.raw() for x in xs], t,
                   bucket=f'{what}:{len(xs)}:{mode}:{style is None}')


def check_time(mon, what, xs, models, axs, sim, t, style):
    P = max(x.shape[0] for x in xs)
    M = max(x.shape[1] for x in xs)
    mon.check(np.shape(axs) == (P, M), f'{what}:axes',
              f'{np.shape(axs)} axes instead of {(P, M)}')
    data = [sim(G, t) for G in models]
    color = {}
    for i in range(P):
        for j in range(M):
            ls = axs[i, j].get_lines()
            here = [k for k, x in enumerate(xs)
                    if i < x.shape[0] and j < x.shape[1]]
            mon.check(len(ls) == len(here), f'{what}:curves',
                      f'{len(ls)} curves of {len(here)} models')
            for k, v in zip(here, ls):
                y, tt = data[k]
                y = np.asarray(y).reshape(len(tt), *xs[k].shape)[:, i, j]
                key = dict(raw=xs[k].raw(), entry=[i, j])
                u = np.asarray(v.get_xdata(), float)
                z = np.asarray(v.get_ydata(), float)
                mon.check(u.shape == tt.shape and z.shape == y.shape,
                          f'{what}:points', f'{u.shape}', **key)
                mon.close(u, tt, f'{what}:time', rtol=1e-9,
                          scale=tt[-1], **key)
                mon.close(z, y, f'{what}:value', rtol=1e-9,
                          scale=np.max(np.abs(y)) + 1e-300, **key)
                ds = v.get_drawstyle()
                mon.check((ds == 'steps-post') == (xs[k].dt is not None),
                          f'{what}:drawing', f'{ds} for dt={xs[k].dt}', **key)
                c = v.get_color()
                mon.check(color.setdefault(k, c) == c, f'{what}:style',
                          'one model in two colours')
                if style is not None:
                    want = list(style)[k % len(style)]['color']
                    mon.check(c == want, f'{what}:style',
                              f'{c} instead of {want}')
    end = min(d[1][-1] for d in data)
    lo, hi = axs[0, 0].get_xlim()
    mon.close(np.array([lo, hi]), np.array([0, end]), f'{what}:limits',
              rtol=1e-9, scale=end)


def many(rng, mon):
    """More models than entries in the default style."""
    k = int(rng.integers(11, 14))
    xs = [some(rng, gen.pick(rng, (None, .5)), 1, slow=False)
          for _ in range(k)]
    models = [x.build(rng) for x in xs]
    what = gen.pick(rng, ('bode', 'nyquist', 'step', 'impulse'))
    w = np.logspace(-3, -.5, 5)
    try:
        if what == 'bode':
            fig = mon.result('bode_plot', bode_plot, models, w=w)
            check_bode(mon, xs, models, fig, w, False, True, True)
        elif what == 'nyquist':
            fig = mon.result('nyquist_plot', nyquist_plot, models, w=w)
            check_nyquist(mon, xs, models, fig, w, True, True)
        else:
            t = np.arange(8)*.5
            axs = mon.result(what, TIME[what][0], models, t=t)
            check_time(mon, what, xs, models, axs, TIME[what][1], t, None)
    finally:
        plt.close('all')
    mon.nontrivial('many', what, [x.raw() for x in xs], bucket=f'many:{what}')


def refused(rng, mon):
    fn = gen.pick(rng, (bode_plot, nyquist_plot, step_response_plot,
                        impulse_response_plot))
    x = some(rng, None, 2).build(rng)
    bad = gen.pick(rng, (3., np.eye(2), 'model', [x, 2.], (x, None), None))
    before = len(plt.get_fignums())
    try:
        mon.rejected(fn.__name__, fn, bad, exc=(ValueError, TypeError),
                     key='refused')
        mon.check(len(plt.get_fignums()) == before, 'refused:figure',
                  'a figure was left behind')
    finally:
        plt.close('all')
    mon.nontrivial(fn.__name__, repr(type(bad)), x.shape,
                   int(rng.integers(1000)), bucket='refused')


WORKLOADS = [
    Workload('bode', bode, 200),
    Workload('nyquist', nyquist, 240),
    Workload('time', time, 320),
    Workload('many', many, 32),
    Workload('refused', refused, 60),
]
