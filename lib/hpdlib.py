"""Generators and reference computations shared by P10 and P11."""
import numpy as np
from hypothesis import strategies as st
import gen


def xgrid(lo, hi, n, step):
    if step.startswith('lin'):
        return np.linspace(lo, hi, n)
    return np.exp(np.linspace(np.log(lo), np.log(hi), n))


@st.composite
def axis(draw, nmin=2, nmax=80, big=0):
    step = draw(st.sampled_from(['linear', 'lin', 'log', 'logarithmic']))
    n = draw(gen.skewint(nmin, nmax))
    if big and draw(st.integers(0, 11)) == 11:
        n = draw(st.integers(nmax + 1, big))
    if step.startswith('log'):
        lo = draw(gen.logfl(1e-3, 1e3))
        hi = lo * draw(gen.fl(1.5, 1e3))
    else:
        lo = draw(st.one_of(st.just(0.), gen.fl(-100., 100.)))
        hi = lo + draw(gen.logfl(1e-2, 1e3))
    u = draw(gen.unit())
    return dict(step=step, n=n, lo=lo * u, hi=hi * u)


@st.composite
def values(draw, n):
    """Log-density values on a grid of n points."""
    kind = draw(st.sampled_from(['walk', 'walk', 'peaks', 'peaks', 'iid', 'steps', 'flat', 'mono']))
    if n > 80 and kind not in ('flat', 'mono'):
        kind = 'peaks'
    if kind == 'walk':
        d = draw(st.lists(gen.fl(-3., 3.), min_size=n, max_size=n))
        v = np.cumsum(d)
    elif kind == 'peaks':
        t = np.linspace(0., 1., n)
        v = np.full(n, -np.inf)
        for _ in range(draw(st.integers(1, 3))):
            m, s, a = draw(gen.fl(-0.2, 1.2)), draw(gen.logfl(0.03, 2.)), draw(gen.fl(-4., 0.))
            v = np.logaddexp(v, a - 0.5 * ((t - m) / s) ** 2)
    elif kind == 'iid':
        v = np.array(draw(st.lists(gen.fl(-20., 20.), min_size=n, max_size=n)))
    elif kind == 'steps':
        lev = draw(st.lists(gen.fl(-6., 0.), min_size=1, max_size=3))
        v = np.array([lev[k] for k in draw(st.lists(st.integers(0, len(lev) - 1),
                                                    min_size=n, max_size=n))])
    elif kind == 'flat':
        v = np.zeros(n)
    else:
        v = draw(gen.fl(-30., 30.)) * np.linspace(0., 1., n)
    v = v + draw(st.sampled_from([0., 0., 0., 1., -700., 3000., -2e7]))
    holes = draw(st.integers(0, 9))
    v = [float(x) for x in v]
    if holes == 0 and n > 3:
        for i in draw(st.lists(st.integers(0, n - 1), max_size=2)):
            v[i] = float('-inf')
    return v


def dens1(lp, x, step):
    """(log density the region refers to, relative to max of lp)"""
    lp = np.array(lp)
    d = lp - lp.max()
    if step.startswith('log'):
        d = d + np.log(x)
    return d


def above1(d, crit):
    """Integral over unit-spaced cells of the piecewise-linear density, over
    the part where it exceeds crit."""
    a, b = d[..., :-1], d[..., 1:]
    hi, lo = np.maximum(a, b), np.minimum(a, b)
    with np.errstate(all='ignore'):
        part = 0.5 * (hi + crit) * (hi - crit) / (hi - lo)
    return np.where(lo > crit, 0.5 * (hi + lo), np.where(hi > crit, part, 0.)).sum(axis=-1)


def above2(d, crit):
    q = above1(d, crit)
    w = np.ones(len(q))
    w[0] = w[-1] = 0.5
    return float((w * q).sum())


def spacing(ax):
    if ax['step'].startswith('lin'):
        return (ax['hi'] - ax['lo']) / (ax['n'] - 1.)
    return np.log(ax['hi'] / ax['lo']) / (ax['n'] - 1.)


def check_level(ctx, frac, lr, p, tol, plateau_ok=True, what='critlevel'):
    """lr solves frac(lr) = p to within tol in lr (frac is non-increasing)."""
    t = 1.5 * tol + 1e-9 + 1e-12 * abs(lr)
    up, dn = frac(lr + t), frac(lr - t)
    ctx.check(up <= p + 1e-9 and dn >= p - 1e-9,
              '%s: logratio %.10g has content [%.10g, %.10g] within tolerance, '
              'target %.10g', what, lr, up, dn, p)
