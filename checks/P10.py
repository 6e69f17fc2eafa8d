"""P10: HPD normalization, content and critical levels (1-D and 2-D)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import numpy as np
from hypothesis import strategies as st
from scipy import stats as sps
import hpdlib as H

probs = st.one_of(st.sampled_from([0.683, 0.954, 0.5, 0.95]), gen.fl(0.01, 0.995))


@st.composite
def queries(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 3)) == 0:
            out.append(['snsig', draw(gen.fl(0.1, 2.8))])
        else:
            out.append(['p', draw(probs)])
    return out


@st.composite
def case1(draw):
    ax = draw(H.axis(big=2500))
    return dict(ax=ax, lp=draw(H.values(ax['n'])), q=draw(queries()),
                lr=draw(st.lists(gen.fl(-12., 1.), min_size=1, max_size=4)),
                shift=draw(gen.fl(-500., 500.)),
                tol=draw(st.sampled_from([None, None, 1e-5, 1e-2])))


def usable(ctx, d):
    """Some mass, in a form that leaves a bracketable level (a grid whose
    whole density is one plateau has every content at a single level)."""
    return np.isfinite(d).sum() >= 2


def many(lr, d):
    s = np.sign(np.where(np.isfinite(d), d, -1e300) - lr)
    return int(np.sum(s[:-1] * s[1:] < 0))


def run_queries(ctx, h, c, frac, two_d, dens, other=None):
    """Critical levels: content, records, history independence, nesting."""
    n0 = 0
    done = []
    kw = {} if c['tol'] is None else dict(tol=c['tol'])
    tol = 3e-4 if c['tol'] is None else c['tol']
    for kind, v in c['q']:
        p = v if kind == 'p' else float(sps.chi2.cdf(v * v, 1))
        try:
            r = h.critlevel(v, **kw) if kind == 'p' else h.critlevel(snsig=v, **kw)
        except RuntimeError as e:
            if 'boundary' in str(e) and not two_d:
                # legitimately too many boundaries (decided in P11)
                lr = h.deltas[-1]
                ctx.check(many(lr, dens) > 10,
                          'RuntimeError about boundaries although there are %d', many(lr, dens))
                ctx.event('many_bounds')
                return
            raise
        if two_d:
            lr = ctx.num(r, 'critlevel')
        else:
            ctx.check(isinstance(r, tuple) and len(r) == 2, 'critlevel returns (level, bounds)')
            lr = ctx.num(r[0], 'critlevel')
        H.check_level(ctx, frac, lr, p, tol)
        ctx.event(kind)
        n0 += 1
        ctx.equal(len(h.probs), n0, 'number of recorded probs')
        ctx.close(h.probs[-1], p, 1e-12, what='recorded prob')
        ctx.close(h.deltas[-1], lr, 1e-14, what='recorded delta')
        ctx.close(h.levels[-1], lr + h.max, 1e-14, 1e-14, what='recorded level')
        for p2, lr2 in done:
            if p2 < p:
                ctx.check(lr2 >= lr - 3 * tol - 1e-9, 'regions are not nested: '
                          'p=%g at %g, p=%g at %g', p2, lr2, p, lr)
        done.append((p, lr))
        if other is not None:
            r2 = other.critlevel(v, **kw) if kind == 'p' else other.critlevel(snsig=v, **kw)
            lr2 = ctx.num(r2 if two_d else r2[0], 'critlevel (other)')
            H.check_level(ctx, frac, lr2, p, tol, what='function/grid counterpart')
    ctx.check(len(h.levels) == n0 and len(h.deltas) == n0, 'records out of step')


def t_1d(c, ctx):
    from inference.grid.hpd import HPD1D
    ax = c['ax']
    lp = np.array(c['lp'])
    x = H.xgrid(ax['lo'], ax['hi'], ax['n'], ax['step'])
    if not np.isfinite(lp).any():
        return
    d = H.dens1(lp, x, ax['step'])
    sp = np.exp(d)
    tot = float(H.above1(sp, -1.))
    if tot <= 0.:
        return
    keep = lp.copy()
    h = HPD1D(lp, ax['lo'], ax['hi'], ax['step'])
    ctx.check(np.array_equal(lp, keep), 'logpdf input was modified')
    dx = H.spacing(ax)
    rt = 1e-10
    ctx.close(h.lml, np.log(tot * dx) + keep.max(), rt, 1e-9, 'lml')
    ctx.close(h.norm(), np.log(tot * dx) + keep.max(), rt, 1e-9, 'norm()')
    ctx.allclose(h.xvals, x, 1e-10, 1e-9 * abs(ax['hi'] - ax['lo']), 'xvals')
    ctx.check(h.xvals[0] == ax['lo'] and h.xvals[-1] == ax['hi'], 'grid endpoints are not exact')
    ctx.check(h.xlo == ax['lo'] and h.xhi == ax['hi'], 'the grid range is not stored')

    def frac(lr):
        return float(H.above1(sp, np.exp(lr))) / tot
    for lr in c['lr']:
        if np.abs(d - lr).min() < 1e-9:
            continue
        ctx.close(h.fracgt(lr), frac(lr), 1e-8, 1e-8, 'fracgt(%r)' % lr)
    run_queries(ctx, h, c, frac, False, d)
    # adding a constant to the log pdf only shifts the normalization
    h2 = HPD1D(keep + c['shift'], ax['lo'], ax['hi'], ax['step'])
    ctx.close(h2.lml, h.lml + c['shift'], 1e-10, 1e-9, 'lml after a shift')
    for lr in c['lr']:
        if np.abs(d - lr).min() > 1e-9:
            ctx.close(h2.fracgt(lr), frac(lr), 1e-8, 1e-8, 'fracgt after a shift')
    ctx.nontrivial(ax['n'] >= 3 and d[np.isfinite(d)].ptp() > 0.1)
    ctx.event(ax['step'][:3])


@st.composite
def case2(draw):
    ax = draw(H.axis(nmin=2, nmax=14, big=60))
    ay = draw(H.axis(nmin=2, nmax=14, big=60))
    n = ax['n'] * ay['n']
    if draw(st.booleans()) or n > 200:
        u = np.array(draw(H.values(ax['n'])))
        v = np.array(draw(H.values(ay['n'])))
        rho = draw(gen.fl(-0.5, 0.5))
        i = np.linspace(-1, 1, ax['n'])[:, None] * np.linspace(-1, 1, ay['n'])[None, :]
        lp = u[:, None] + v[None, :] + 4 * rho * i
    else:
        lp = np.array(draw(st.lists(gen.fl(-9., 0.), min_size=n, max_size=n))).reshape(ax['n'], ay['n'])
    return dict(ax=ax, ay=ay, lp=[[float(a) for a in r] for r in lp], q=draw(queries()),
                lr=draw(st.lists(gen.fl(-12., 1.), min_size=1, max_size=4)),
                fortran=draw(st.booleans()),
                tol=draw(st.sampled_from([None, None, 1e-5, 1e-2])))


def t_2d(c, ctx):
    from inference.grid.hpd import HPD2D
    ax, ay = c['ax'], c['ay']
    lp = np.array(c['lp'], order='F' if c['fortran'] else 'C')
    if not np.isfinite(lp).any():
        return
    x = H.xgrid(ax['lo'], ax['hi'], ax['n'], ax['step'])
    y = H.xgrid(ay['lo'], ay['hi'], ay['n'], ay['step'])
    d = lp - lp.max()
    if ax['step'].startswith('log'):
        d = d + np.log(x)[:, None]
    if ay['step'].startswith('log'):
        d = d + np.log(y)[None, :]
    sp = np.exp(d)
    tot = H.above2(sp, -1.)
    if tot <= 0.:
        return
    keep = lp.copy()
    h = HPD2D(lp, ax['lo'], ax['hi'], ay['lo'], ay['hi'], ax['step'], ay['step'])
    ctx.check(np.array_equal(lp, keep), 'logpdf input was modified')
    ctx.close(h.lml, np.log(tot * H.spacing(ax) * H.spacing(ay)) + lp.max(), 1e-10, 1e-9, 'lml')
    ctx.close(h.norm, tot * H.spacing(ax) * H.spacing(ay), 1e-9, what='norm')
    ctx.allclose(h.xvals, x, 1e-10, 1e-9 * abs(ax['hi'] - ax['lo']), 'xvals')
    ctx.allclose(h.yvals, y, 1e-10, 1e-9 * abs(ay['hi'] - ay['lo']), 'yvals')
    ctx.check(h.xlo == ax['lo'] and h.xhi == ax['hi'] and h.ylo == ay['lo'] and h.yhi == ay['hi'],
              'grid ranges are not stored')

    def frac(lr):
        return H.above2(sp, np.exp(lr)) / tot
    for lr in c['lr']:
        if np.abs(d - lr).min() > 1e-9:
            ctx.close(h.fracgt(lr), frac(lr), 1e-8, 1e-8, 'fracgt(%r)' % lr)
    run_queries(ctx, h, c, frac, True, d)
    ctx.nontrivial(ax['n'] >= 3 and ay['n'] >= 3)


@st.composite
def fcase(draw):
    two = draw(st.booleans())
    mx = 14 if two else 60
    big = 30 if two else 1500
    ax, ay = draw(H.axis(nmax=mx, big=big)), draw(H.axis(nmax=mx, big=big))
    par = draw(st.lists(gen.fl(0., 1.), min_size=4, max_size=4))
    return dict(two=two, ax=ax, ay=ay, par=par, q=draw(queries()), tol=None, off=draw(st.sampled_from([0., 3., 3., -900., 2e7, -2e7])),
                ints=draw(st.booleans()))


def t_func(c, ctx):
    """HPDGrid*: the function is evaluated at the grid points, and the result
    is that of HPD* for the same table."""
    from inference.grid.hpd import HPD1D, HPD2D
    from inference.grid.hpdgrid import HPDGrid1D, HPDGrid2D
    ax, ay, par, off = c['ax'], c['ay'], c['par'], c['off']
    if c['ints'] and ax['step'].startswith('lin'):
        ax = dict(ax, lo=int(ax['lo']), hi=int(ax['lo']) + 1 + int(ax['hi'] - ax['lo']))
    xm = ax['lo'] + par[0] * (ax['hi'] - ax['lo'])
    xs = (0.1 + par[1]) * (ax['hi'] - ax['lo'])
    ym = ay['lo'] + par[2] * (ay['hi'] - ay['lo'])
    ys = (0.1 + par[3]) * (ay['hi'] - ay['lo'])
    seen = []
    x = H.xgrid(ax['lo'], ax['hi'], ax['n'], ax['step'])
    y = H.xgrid(ay['lo'], ay['hi'], ay['n'], ay['step'])
    if not c['two']:
        def f(a):
            seen.append(a)
            return -0.5 * ((a - xm) / xs) ** 2 + off
        h = HPDGrid1D(f, ax['lo'], ax['hi'], ax['n'], ax['step'])
        ctx.check(len(seen) >= ax['n'], 'the function was not evaluated at every grid point')
        lp = np.array([f(a) for a in x])
        ctx.allclose(np.array(h.logpdf) - off, lp - off, 1e-8, 1e-8 + 1e-15 * abs(off), 'logpdf table')
        o = HPD1D(np.array(h.logpdf), ax['lo'], ax['hi'], ax['step'])
        ctx.close(h.lml, o.lml, 1e-12, 1e-12, 'lml: function vs table')
        ctx.close(h.norm(), o.norm(), 1e-12, 1e-12, 'norm: function vs table')
        d = H.dens1(lp, x, ax['step'])
        sp = np.exp(d)
        tot = float(H.above1(sp, -1.))
        ctx.close(h.lml, np.log(tot * H.spacing(ax)) + lp.max(), 1e-9, 1e-7, 'lml')

        def frac(lr):
            return float(H.above1(sp, np.exp(lr))) / tot
        for lr in (-0.3, -2., -9.):
            ctx.close(h.fracgt(lr), o.fracgt(lr), 1e-10, 1e-10, 'fracgt: function vs table')
            if np.abs(d - lr).min() > 1e-6:
                ctx.close(h.fracgt(lr), frac(lr), 1e-6, 1e-6, 'fracgt')
        # 1e-6 of slack: the grids agree only to roundoff
        run_queries(ctx, h, dict(c, tol=None), frac, False, d, o)
        ctx.nontrivial(ax['n'] > 3)
    else:
        def f(a, b):
            seen.append(a)
            return -0.5 * ((a - xm) / xs) ** 2 - 0.5 * ((b - ym) / ys) ** 2 \
                - 0.3 * (a - xm) / xs * (b - ym) / ys + off
        h = HPDGrid2D(f, ax['lo'], ax['hi'], ax['n'], ay['lo'], ay['hi'], ay['n'],
                      ax['step'], ay['step'])
        lp = np.array([[f(a, b) for b in y] for a in x])
        ctx.allclose(np.array(h.logpdf) - off, lp - off, 1e-8, 1e-8 + 1e-15 * abs(off), 'logpdf table')
        o = HPD2D(np.array(h.logpdf), ax['lo'], ax['hi'], ay['lo'], ay['hi'],
                  ax['step'], ay['step'])
        ctx.close(h.lml, o.lml, 1e-12, 1e-12, 'lml: function vs table')
        d = lp - lp.max()
        if ax['step'].startswith('log'):
            d = d + np.log(x)[:, None]
        if ay['step'].startswith('log'):
            d = d + np.log(y)[None, :]
        sp = np.exp(d)
        tot = H.above2(sp, -1.)
        ctx.close(h.lml, np.log(tot * H.spacing(ax) * H.spacing(ay)) + lp.max(), 1e-9, 1e-7, 'lml')

        def frac(lr):
            return H.above2(sp, np.exp(lr)) / tot
        for lr in (-0.3, -2., -9.):
            ctx.close(h.fracgt(lr), o.fracgt(lr), 1e-10, 1e-10, 'fracgt: function vs table')
            if np.abs(d - lr).min() > 1e-6:
                ctx.close(h.fracgt(lr), frac(lr), 1e-6, 1e-6, 'fracgt')
        run_queries(ctx, h, dict(c, tol=None), frac, True, d, o)
        ctx.nontrivial(ax['n'] > 3 and ay['n'] > 3)
    ctx.event('2d' if c['two'] else '1d')


@st.composite
def ncase(draw):
    return dict(nd=draw(st.integers(1, 4)), p=draw(gen.fl(0.001, 0.9999)), ns=draw(gen.fl(0.05, 5.)),
                sx=draw(gen.logfl(0.1, 10.)), sy=draw(gen.logfl(0.1, 10.)), pg=draw(gen.fl(0.2, 0.97)))


def t_normal(c, ctx):
    """Normal-distribution helpers, and agreement of fine grids with them."""
    from inference.grid import hpd, hpdgrid
    for m in (hpd, hpdgrid):
        nd, p, ns = c['nd'], c['p'], c['ns']
        ctx.close(m.sig2prob(nd, ns), sps.chi2.cdf(ns ** 2, nd), 1e-12, what='sig2prob')
        ctx.close(m.prob2sig(nd, p), np.sqrt(sps.chi2.ppf(p, nd)), 1e-10, what='prob2sig')
        ctx.close(m.sig2prob(nd, m.prob2sig(nd, p)), p, 1e-8, what='sig2prob(prob2sig)')
        r2 = sps.chi2.ppf(p, nd)
        ctx.close(m.prob2ratio(nd, p), np.exp(-0.5 * r2), 1e-9, what='prob2ratio')
        ctx.close(m.prob2dens(nd, p), np.exp(-0.5 * r2) / (2 * np.pi) ** (nd / 2.), 1e-9, what='prob2dens')
        ctx.close(m.sig2ratio(nd, ns), np.exp(-0.5 * ns ** 2), 1e-12, what='sig2ratio')
    for cls, nd in ((hpd.HPD1D, 1), (hpd.HPD2D, 2), (hpdgrid.HPDGrid1D, 1), (hpdgrid.HPDGrid2D, 2)):
        for k in (1, 2, 3):
            ctx.close(getattr(cls, 'p%dsig' % k), sps.chi2.cdf(k * k, nd), 1e-12, what='%s.p%dsig' % (cls.__name__, k))
            ctx.close(getattr(cls, 'ratio%d' % k), np.exp(-.5 * k * k), 1e-12, what='%s.ratio%d' % (cls.__name__, k))
    p, sx, sy = c['pg'], c['sx'], c['sy']
    h = hpdgrid.HPDGrid1D(lambda x: -0.5 * (x / sx) ** 2, -6 * sx, 6 * sx, 401)
    lr, b = h.critlevel(p)
    ctx.close(np.exp(lr), hpd.prob2ratio(1, p), 5e-3, what='1-D normal critical ratio')
    ctx.close(h.lml, np.log(sx * np.sqrt(2 * np.pi)), 1e-4, 1e-4, '1-D normal lml')
    z = hpd.prob2sig(1, p) * sx
    ctx.allclose(b, [-z, z], 1e-2, what='1-D normal boundaries')
    X = np.linspace(-6 * sx, 6 * sx, 81)[:, None]
    Y = np.linspace(-6 * sy, 6 * sy, 101)[None, :]
    h = hpd.HPD2D(-0.5 * (X / sx) ** 2 - 0.5 * (Y / sy) ** 2, -6 * sx, 6 * sx, -6 * sy, 6 * sy)
    ctx.close(h.lml, np.log(sx * sy * 2 * np.pi), 1e-3, 1e-3, '2-D normal lml')
    ctx.close(np.exp(h.critlevel(p)), hpd.prob2ratio(2, p), 0., 0.02, '2-D normal critical ratio')
    ctx.nontrivial()


@st.composite
def badcase(draw):
    return dict(ndim=draw(st.sampled_from([0, 1, 2, 3])), step=draw(st.sampled_from(
        ['bogus', 'Lin', 'ln', 'logg', ''])))


def t_bad(c, ctx):
    from inference.grid.hpd import HPD1D, HPD2D
    from inference.grid.hpdgrid import HPDGrid1D, HPDGrid2D
    a = np.zeros((3,) * c['ndim'])
    if c['ndim'] != 1:
        ctx.raises(ValueError, lambda: HPD1D(a, 0., 1.), 'HPD1D with a non-1-D array')
    if c['ndim'] != 2:
        ctx.raises(ValueError, lambda: HPD2D(a, 0., 1., 0., 1.), 'HPD2D with a non-2-D array')
    ctx.raises(ValueError, lambda: HPD1D(np.zeros(3), 1., 2., c['step']), 'bad step')
    ctx.raises(ValueError, lambda: HPD2D(np.zeros((3, 3)), 1., 2., 1., 2., c['step'], 'lin'), 'bad xstep')
    ctx.raises(ValueError, lambda: HPD2D(np.zeros((3, 3)), 1., 2., 1., 2., 'lin', c['step']), 'bad ystep')
    ctx.raises(ValueError, lambda: HPDGrid1D(lambda x: 0., 1., 2., 3, c['step']), 'bad step')
    ctx.raises(ValueError, lambda: HPDGrid2D(lambda x, y: 0., 1., 2., 3, 1., 2., 3, c['step']), 'bad xstep')
    h = HPD1D(np.array([-3., 0., -3.]), 1., 2.)
    ctx.raises(ValueError, lambda: h.critlevel(0.5, 1.), 'both p and snsig')
    h = HPD2D(np.array([[-3., 0., -3.], [-2., -1., -3.]]), 1., 2., 1., 2.)
    ctx.raises(ValueError, lambda: h.critlevel(0.5, 1.), 'both p and snsig')
    ctx.nontrivial()


check = vh.Check('P10', [
    vh.Sub('grid1d', case1(), t_1d, quick=2500, thorough=60000, shards=2,
           rule='>= 3 grid points and a density range above 10%'),
    vh.Sub('grid2d', case2(), t_2d, quick=1500, thorough=30000, shards=2,
           rule='>= 3 points on both axes'),
    vh.Sub('function', fcase(), t_func, quick=1000, thorough=20000, shards=2,
           rule='> 3 points per axis'),
    vh.Sub('normal', ncase(), t_normal, quick=100, thorough=2000, rule='all'),
    vh.Sub('invalid', badcase(), t_bad, quick=20, thorough=60, rule='all'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['2..80 grid points per axis (2-D: 2..14); log densities within a few '
                 'thousand of each other, -inf allowed; p in [0.01, 0.995]',
                 'reference: piecewise-linear density integrated cell by cell (rows in y '
                 'for 2-D, trapezoid in x)',
                 'a critical level is accepted when the content at level +- 1.5 tol brackets p'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
