"""What a printed model says."""
import re

import numpy as np

from .. import gen, oracle
from ..core import Violation, Workload

ID = 'C31'
RULE = ('distinct models whose printed text was read back and compared with '
        'the model')


def number(mon, text, word, want, key, **data):
    """The number in front of the word is the wanted one."""
    got = re.findall(r'(\d+)\s+' + word, text, re.I)
    mon.check(got == [str(want)], key, f'{got} instead of {want}', text=text,
              **data)


def table(text):
    """Columns of the table below a dashed line, with their headers."""
    lines = text.splitlines()
    rule = [i for i, x in enumerate(lines)
            if re.fullmatch(r'[\s-]*-{2,}[\s-]*', x)]
    if len(rule) != 1:
        return None
    spans = [m.span() for m in re.finditer('-+', lines[rule[0]])]
    head = lines[rule[0]-1]
    cols = []
    for a, b in spans:
        cells = [x[a:b].strip() for x in lines[rule[0]+1:]]
        cols.append((head[a:b].strip().lower(),
                     [float(x) for x in cells if x]))
    return cols


def check(mon, G, raw, dt, n):
    kind = type(G).__name__
    text = mon.result('repr', repr, G, key=f'{kind}:raises')
    mon.check(isinstance(text, str), f'{kind}:text', f'{type(text)}')
    mon.check(str(G) == text, f'{kind}:str', 'str() and repr() differ')
    p, m = G.shape
    low = text.lower()
    data = dict(model=raw.raw())
    mon.check(('state' if kind == 'State' else 'transfer') in low,
              f'{kind}:kind', 'does not name its kind', text=text, **data)
    mon.check(('continuous' in low) == (dt is None) and
              ('discrete' in low) == (dt is not None), f'{kind}:domain',
              'time domain', text=text, dt=dt, **data)
    nums = [float(x) for x in re.findall(
        r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?', low.split('\n\n')[0])]
    if dt is not None:
        for v in dt, 1/dt:
            mon.check(any(abs(v - x) <= 6e-4 + 1e-5*abs(v) for x in nums),
                      f'{kind}:sampling', f'{v} is not shown', text=text,
                      **data)
    gain = n == 0
    mon.check(('static gain' in low) == gain, f'{kind}:static',
              f'static: {gain}', text=text, **data)
    if gain:
        got = re.findall(r'(\d+)\s*x\s*(\d+)', low)
        mon.check(got == [(str(p), str(m))], f'{kind}:size',
                  f'{got} instead of {(p, m)}', text=text, **data)
        return text
    number(mon, text, 'input', m, f'{kind}:inputs', **data)
    number(mon, text, 'output', p, f'{kind}:outputs', **data)
    if kind == 'State':
        number(mon, text, r'states?\b', n, 'State:states', **data)
    cols = table(text)
    if cols is None:
        raise Violation(f'{kind}:table', 'no table of poles and zeros',
                        {'text': text})
    for what in 'pole', 'zero':
        want = np.ravel(getattr(G, what + 's')).astype(complex)
        got = []
        for part in 'real', 'imag':
            col = [v for h, v in cols if what in h and part in h]
            if len(col) != 1:
                raise Violation(f'{kind}:{what}s', f'{len(col)} columns of '
                                f'{what}s ({part})', {'text': text})
            got.append(np.array(col[0]))
        if len(got[0]) != len(want) or len(got[1]) != len(want):
            raise Violation(f'{kind}:{what}s', f'{len(got[0])} {what}s '
                            f'instead of {len(want)}', {'text': text})
        # row by row, up to six digits of each part
        d = max((max(abs(r - w.real) - 1e-5*abs(w.real),
                     abs(i - w.imag) - 1e-5*abs(w.imag))
                 for r, i, w in zip(*got, want)), default=0.)
        if d > 1e-9:
            z = got[0] + 1j*got[1]
            d = oracle.same_multiset(z, want, 0) - 2e-5*np.max(np.abs(want))
        mon.check(d <= 1e-9, f'{kind}:{what}s', f'off by {d:.1e}', text=text,
                  want=want)
    return text


def printed(rng, mon):
    raw = gen.model(rng, nmax=5, maxdeg=3, gain=.15)
    if raw.dt is not None:
        raw.dt = float(gen.pick(rng, (.01, .025, .125, .5, 1., 2., 40.)))
    G = mon.result('build', raw.build, rng)
    dt = raw.dt
    if isinstance(raw, gen.SS):
        n = raw.n
    else:
        n = max(len(d) - 1 for r in raw.den for d in r)
        if n and not any(len(np.trim_zeros(d, 'f')) > 1
                         for r in raw.den for d in r):
            n = 0
    check(mon, G, raw, dt, n)
    # the text follows the model
    if rng.random() < .5:
        dt = None if rng.random() < .4 else float(
            gen.pick(rng, (.05, .25, 3.)))
        G.SamplingPeriod = dt
        check(mon, G, raw, dt, n)
    mon.nontrivial(raw.raw(), dt,
                   bucket=(type(G).__name__, G.shape, n, dt is None),
                   sample={'shape': G.shape, 'n': n, 'dt': dt})


WORKLOADS = [Workload('printed', printed, 8000)]
