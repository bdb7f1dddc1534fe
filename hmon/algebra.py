"""Operands of block diagram algebra and the value their results must have."""
from dataclasses import dataclass, field

import numpy as np

from . import gen, oracle


@dataclass
class Const:
    """A scalar or array operand; value is kept as a p x m matrix."""
    value: np.ndarray
    form: str
    dt: object = None
    tags: list = field(default_factory=list)

    @property
    def shape(self):
        return self.value.shape

    def poles(self):
        return np.array([])

    def raw(self):
        return [self.form, self.value]

    def at(self, pts):
        return np.broadcast_to(self.value, (len(pts),) + self.shape) + 0j

    def build(self, rng=None):
        v = self.value
        if self.form == 'int':
            return int(v[0, 0])
        if self.form == 'float':
            return float(v[0, 0])
        if self.form == 'int2d':
            return v.astype(int)
        if self.form in ('size1', 'row'):
            return v[0].copy()
        if self.form == 'npfloat':
            return v[0, 0]
        if self.form == 'complex2d':
            return v.astype(complex)
        return v.copy()


def const(rng, shp, forms=None):
    forms = forms or (('int', 'float', '2d', 'size1', 'int2d', 'npfloat')
                      if shp == (1, 1) else
                      ('2d', '2d', 'int2d', 'complex2d') +
                      (('row', 'row') if shp[0] == 1 else ()))
    form = gen.pick(rng, forms)
    if form in ('int', 'int2d'):
        v = rng.integers(-5, 6, shp).astype(float)
    else:
        v = np.round(rng.normal(size=shp)*3, 2)
    if rng.random() < .05:
        v = np.zeros(shp)
    return Const(v, form, None, [form])


KINDS = ('ss', 'tf', 'ssgain', 'tfgain', 'const')


def operand(rng, dt, shp, kind, kw_tf=None, kw_ss=None):
    if kind == 'ss':
        return gen.ss(rng, dt=dt, shp=shp, n=None, gain=0,
                      **{'nmax': 3, **(kw_ss or {})})
    if kind == 'ssgain':
        return gen.ss(rng, dt=dt, shp=shp, n=0)
    if kind == 'tf':
        md = 3 if shp == (1, 1) else 2
        return gen.tf(rng, dt=dt, shp=shp, gain=0,
                      **{'maxdeg': md, **(kw_tf or {})})
    if kind == 'tfgain':
        return gen.tf(rng, dt=dt, shp=shp, gain=1)
    return const(rng, shp)


def is_model(x):
    return type(x).__name__ in ('State', 'Transfer')


def judge(mon, key, got, shape, dt, value, pts, scale, rtol=1e-6, **data):
    """A computed model has this shape, sampling period and value."""
    mon.check(is_model(got), key + ':type',
              f'returned a {type(got).__name__}', **data)
    mon.check(tuple(got.shape) == tuple(shape), key + ':shape-attr',
              f'shape {got.shape} instead of {shape}', got=got, **data)
    mon.check((got.NumberOfOutputs, got.NumberOfInputs) == tuple(shape),
              key + ':channel-count', 'wrong channel counts', **data)
    mon.check(got.SamplingPeriod == dt, key + ':sampling-period',
              f'{got.SamplingPeriod} instead of {dt}', got=got, **data)
    mon.check(got.SamplingSet == ('R' if dt is None else 'Z'),
              key + ':sampling-set', str(got.SamplingSet), got=got, **data)
    val = oracle.model_eval(got, pts)
    mon.close(val, value, key + ':response', rtol=rtol,
              atol=rtol*1e-3, scale=max(scale, np.max(np.abs(value))),
              got_model=got, **data)
