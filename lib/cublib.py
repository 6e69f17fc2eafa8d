"""Separable integrands with known integrals, shared by P16 and P17."""
import numpy as np
from math import erf, sqrt, pi
from hypothesis import strategies as st
import gen


@st.composite
def region(draw, nd):
    lo, hi = [], []
    for _ in range(nd):
        a = draw(st.one_of(st.sampled_from([0., -1., 1.]), gen.fl(-10., 10.)))
        w = draw(st.one_of(st.sampled_from([1., 2.]), gen.logfl(1e-2, 20.)))
        u = draw(gen.unit())
        lo.append(a * u)
        hi.append((a + w) * u)
    return dict(lo=lo, hi=hi)


@st.composite
def smooth(draw, nd):
    """A separable smooth function in unit coordinates: list of factors."""
    fac = []
    for _ in range(nd):
        k = draw(st.sampled_from(['exp', 'exp', 'gauss', 'cos', 'inv', 'const']))
        if k == 'exp':
            fac.append([k, draw(gen.fl(-1.5, 1.5))])
        elif k == 'gauss':
            fac.append([k, draw(gen.fl(0., 1.)), draw(gen.fl(0.6, 2.))])
        elif k == 'cos':
            fac.append([k, draw(gen.fl(-1., 1.)), draw(gen.fl(0.1, 1.5))])
        elif k == 'inv':
            fac.append([k, draw(gen.fl(1.5, 5.))])
        else:
            fac.append([k])
    return dict(fac=fac, amp=draw(gen.sgnfl(1e-3, 1e3)) * draw(gen.unit()))


def fval(f, u):
    v = f['amp']
    for p, t in zip(f['fac'], u):
        k = p[0]
        if k == 'exp':
            v *= np.exp(p[1] * t)
        elif k == 'gauss':
            v *= np.exp(-0.5 * ((t - p[1]) / p[2]) ** 2)
        elif k == 'cos':
            v *= 2. + np.cos(p[1] + p[2] * t)
        elif k == 'inv':
            v *= 1. / (t + p[1])
    return v


def finteg(f):
    """Integral over the unit cube."""
    v = f['amp']
    for p in f['fac']:
        k = p[0]
        if k == 'exp':
            v *= np.expm1(p[1]) / p[1] if abs(p[1]) > 1e-9 else 1.
        elif k == 'gauss':
            m, s = p[1], p[2]
            v *= s * sqrt(pi / 2) * (erf((1 - m) / s / sqrt(2)) + erf(m / s / sqrt(2)))
        elif k == 'cos':
            v *= 2. + (np.sin(p[1] + p[2]) - np.sin(p[1])) / p[2]
        elif k == 'inv':
            v *= np.log1p(1. / p[1])
    return v


@st.composite
def poly(draw, nd, deg):
    """Polynomial in coordinates on [-1,1]^nd, total degree <= deg."""
    terms = [[[0] * nd, draw(gen.fl(1., 3.))]]
    for i in range(draw(st.integers(1, 5))):
        e = [0] * nd
        budget = deg if i == 0 else draw(st.integers(0, deg))
        for _ in range(budget):
            e[draw(st.integers(0, nd - 1))] += 1
        terms.append([e, draw(gen.fl(-1., 1.))])
    return terms


def pval(terms, v):
    s = 0.
    for e, a in terms:
        t = a
        for k, x in zip(e, v):
            t *= x ** k
        s += t
    return s


def pinteg(terms):
    """Mean over [-1,1]^nd"""
    s = 0.
    for e, a in terms:
        t = a
        for k in e:
            t *= 0. if k % 2 else 1. / (k + 1)
        s += t
    return s


class Fn(object):
    """Callable of x in the region; records calls and checks the domain."""

    def __init__(self, r, g, unit=True):
        self.lo = np.array(r['lo'])
        self.w = np.array(r['hi']) - self.lo
        self.g, self.n, self.out = g, 0, None
        self.unit = unit
        self.fail_at = None

    def __call__(self, x):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            raise KeyError('injected')
        u = (np.array(x, float) - self.lo) / self.w
        if (u < -1e-9).any() or (u > 1 + 1e-9).any():
            self.out = list(map(float, x))
        return self.g(u if self.unit else 2 * u - 1)
