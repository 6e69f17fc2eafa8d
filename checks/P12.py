"""P12: adaptive 1-D grids (Grid1D) and their interval bookkeeping."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp

MAXPTS = 4000


@st.composite
def rng(draw, nmin=2, nmax=60):
    log = draw(st.booleans())
    stype = draw(st.sampled_from(['log', 'logarithmic', 'Log'] if log else
                                 ['linear', 'lin', 'Linear']))
    if log:
        lo = draw(gen.logfl(1e-3, 1e3))
        hi = lo * draw(gen.fl(1.2, 1e3))
        if draw(st.integers(0, 4)) == 0:
            lo, hi = -hi, -lo
    else:
        lo = draw(st.one_of(st.just(0.), st.integers(-20, 20).map(float), gen.fl(-100., 100.)))
        hi = lo + draw(st.one_of(st.integers(1, 100).map(float), gen.logfl(0.1, 1e3)))
    n = draw(gen.skewint(nmin, nmax))
    if draw(st.integers(0, 15)) == 15:
        n = draw(st.integers(nmax, 600))
    u = draw(gen.unit())
    return dict(lo=lo * u, hi=hi * u, n=n, stype=stype, log=log)


def to_x(r, u):
    """u in [0,1] -> abscissa, in the grid's own metric."""
    if r['log']:
        return float(r['lo'] * np.exp(u * np.log(r['hi'] / r['lo'])))
    return r['lo'] + u * (r['hi'] - r['lo'])


def to_u(r, x):
    if r['log']:
        return np.log(x / r['lo']) / np.log(r['hi'] / r['lo'])
    return (x - r['lo']) / (r['hi'] - r['lo'])


# ------------------------------------------------------------ interval lists
@st.composite
def ilist_case(draw):
    r = draw(rng())
    ups = []
    for _ in range(draw(st.integers(1, 6)) if draw(st.integers(0, 11)) < 11 else draw(st.integers(7, 20))):
        kind = draw(st.integers(0, 3))
        if kind == 0:
            # boundaries on base grid points
            i = draw(st.integers(0, r['n'] - 1))
            j = draw(st.integers(0, r['n'] - 1))
            a, b = i / (r['n'] - 1.), j / (r['n'] - 1.)
        else:
            a = draw(gen.fl(-0.2, 1.1))
            b = a + draw(gen.logfl(1e-4, 1.))
        a, b = min(a, b), max(a, b)
        if b - a < 1e-6 or b <= 1e-9 or a >= 1. - 1e-9:
            b, a = 0.7, 0.2
        ups.append([a, b, draw(gen.skewint(2, 120))])
    return dict(r=r, ups=ups, rev=draw(st.integers(0, 4)) == 0,
                xs=draw(st.lists(gen.fl(0., 1.), min_size=1, max_size=6)))


def local_step(il, x):
    for iv in il.ilist:
        if iv.lo <= x <= iv.hi:
            return abs(iv.step)
    return None


def check_ilist(ctx, r, il, base_step):
    ivs = [iv for iv in il]
    ctx.equal(len(ivs), il.nint, 'nint')
    w = abs(r['hi'] - r['lo'])
    eps = 1e-9 * w
    ctx.close(ivs[0].lo, r['lo'], 0., eps, 'start of the interval list')
    ctx.close(ivs[-1].hi, r['hi'], 0., eps, 'end of the interval list')
    tot = 1
    pts = []
    for k, iv in enumerate(ivs):
        ctx.check(iv.n >= 2, 'interval with %d points', iv.n)
        ctx.check(iv.hi > iv.lo, 'empty interval [%r, %r]', iv.lo, iv.hi)
        ext = np.log(iv.hi / iv.lo) if r['log'] else iv.hi - iv.lo
        ctx.close(iv.step * (iv.n - 1), ext, 1e-9, what='step*(n-1) of interval %d' % k)
        ctx.check(abs(iv.step) <= base_step * (1 + 1e-6),
                  'interval %d is sampled more coarsely (%g) than the base (%g)', k, iv.step, base_step)
        if k:
            ctx.close(iv.lo, ivs[k - 1].hi, 0., eps, 'contiguity at interval %d' % k)
        tot += iv.n - 1
        ctx.equal(il.cumpts[k], tot if k == len(ivs) - 1 else tot - 1, 'cumpts[%d]' % k)
        u = np.arange(iv.n - 1 if k < len(ivs) - 1 else iv.n)
        pts.extend(iv.lo * np.exp(u * iv.step) if r['log'] else iv.lo + u * iv.step)
    ctx.equal(il.npts, tot, 'npts')
    ctx.equal(len(il.cumpts), len(ivs), 'len(cumpts)')
    return pts


def t_ilist(c, ctx):
    from inference.grid.grid1d import RefinedIntervalList1D
    r = c['r']
    if c['rev']:
        il = RefinedIntervalList1D(r['hi'], r['lo'], r['n'], r['stype'])
    else:
        il = RefinedIntervalList1D(r['lo'], r['hi'], r['n'], r['stype'])
    full = abs(np.log(r['hi'] / r['lo'])) if r['log'] else r['hi'] - r['lo']
    base = full / (r['n'] - 1.)
    pts = check_ilist(ctx, r, il, base)
    refined = 0
    for a, b, n in c['ups']:
        x0, x1 = to_x(r, a), to_x(r, b)
        old = [(iv.lo, iv.hi, abs(iv.step)) for iv in il.ilist]
        np0 = il.npts
        if il.npts + n > MAXPTS:
            break
        if c['rev']:
            il.update(x1, x0, n)
        else:
            il.update(x0, x1, n)
        pts = check_ilist(ctx, r, il, base)
        if il.npts > np0:
            refined += 1
        # refinement never coarsens
        for lo, hi, stp in old:
            for f in (0.03, 0.31, 0.5, 0.77, 0.98):
                x = lo + f * (hi - lo)
                ctx.check(local_step(il, x) <= stp * (1 + 1e-6) + 1e-12 * full,
                          'the step at %r grew from %g to %g', x, stp, local_step(il, x))
        # the requested density is delivered across the requested interval
        lo, hi = max(a, 0.) * full, min(b, 1.) * full
        req = (hi - lo) / (n - 1.)
        # an interval much finer than what it starts in only gets the points asked for, over the grid cells it touches
        xa, xb = max(x0, r['lo']), min(x1, r['hi'])
        w = r['hi'] - r['lo']
        slo = max(s for l, h, s in old if l - 1e-7 * w <= xa <= h + 1e-7 * w)
        shi = max(s for l, h, s in old if l - 1e-7 * w <= xb <= h + 1e-7 * w)
        if 5 * req > slo * (1 + 1e-6):
            bound = req
        else:
            bound = max((hi - lo + slo + shi) / (n - 1.), req)
        for f in (0.05, 0.3, 0.5, 0.8, 0.95):
            x = to_x(r, (lo + f * (hi - lo)) / full)
            ctx.check(local_step(il, x) <= bound * (1 + 1e-6) + 1e-9 * base
                      or local_step(il, x) <= 0,
                      'step %g at %r after requesting %g', local_step(il, x), x, bound)
    # lookup by point number: every number once, ascending
    prev = None
    for k in range(il.npts):
        i, indx, iv = il.nlocate(k)
        ctx.check(iv is il.ilist[i], 'nlocate returns a foreign interval')
        ctx.check(0 <= indx < iv.n, 'nlocate index out of the interval')
        x = iv.lo * np.exp(indx * iv.step) if r['log'] else iv.lo + indx * iv.step
        ctx.close(x, pts[k], 1e-9, 1e-9 * abs(r['hi'] - r['lo']), 'point %d' % k)
        ctx.check(prev is None or x > prev, 'points are not ascending at %d', k)
        prev = x
    for bad in (-1, il.npts, il.npts + 5):
        ctx.raises(ValueError, lambda: il.nlocate(bad), 'nlocate(%d)' % bad)
    for u in c['xs'] + [0., 1.]:
        x = min(max(to_x(r, u), il.lo), il.hi)
        iv = il.locate(x)
        ctx.check(iv.lo <= x <= iv.hi, 'locate(%r) gave [%r, %r]', x, iv.lo, iv.hi)
    ctx.raises(ValueError, lambda: il.locate(il.lo - 1. * abs(il.hi - il.lo)), 'locate below')
    ctx.raises(ValueError, lambda: il.locate(il.hi + 1. * abs(il.hi - il.lo)), 'locate above')
    nb = il.nonbase()
    for iv in il:
        ctx.check(abs(iv.step) > .999 * base or any(iv is q for q in nb), 'a refined interval is missing in nonbase()')
    for iv in nb:
        ctx.check(iv.step != il.base.step, 'nonbase interval has the base step')
    ctx.raises(ValueError, lambda: il.update(*((il.hi + 2., il.hi + 1., 5) if c['rev'] else
                                               (il.hi + 1., il.hi + 2., 5))), 'disjoint update')
    if refined >= 2:
        ctx.nontrivial()
    ctx.event('refined=%d' % min(refined, 3))
    ctx.event(('neg log' if r['lo'] < 0. else 'log') if r['log'] else 'lin')


# ------------------------------------------------------------ refined grids
@st.composite
def grid_case(draw):
    r = draw(rng(nmin=2, nmax=50))
    kind = draw(st.sampled_from(['gauss', 'gauss', 'gauss', 'wave', 'mono', 'flat', 'kink']))
    comps = []
    far = draw(st.sampled_from([1., 1., 1., 300., 300.]))
    for _ in range(draw(st.sampled_from([1, 2, 3, 1, 2, 3, 1, 2, 3, 8]))):
        comps.append([draw(gen.fl(-0.05, 1.05)), draw(gen.logfl(0.2, 30.)), far * draw(gen.fl(-5., 5.))])
    return dict(r=r, kind=kind, comps=comps, off=draw(st.sampled_from([0., 0., -800., 800.])),
                seq=draw(st.sampled_from([0, 0, 0, 1, 2])),
                sigpts=draw(st.integers(3, 21)), nsig=draw(st.integers(1, 6)),
                nmax=draw(st.sampled_from([None, None, 1, 2])),
                dynrange=None if far > 1. else draw(st.sampled_from([1e5, 1e5, 10., None])),
                rank=draw(st.sampled_from(['peak', 'area'])),
                rdyn=draw(st.sampled_from([None, None, 100.])))


def make_f(c):
    r = c['r']
    cell = 1. / (r['n'] - 1.)

    def f(x):
        u = to_u(r, x)
        if c['kind'] == 'gauss':
            v = logsumexp([a - 0.5 * ((u - m) / (s * cell)) ** 2 for m, s, a in c['comps']])
        elif c['kind'] == 'wave':
            v = sum(a * np.sin(6.28 * (1 + m) * u / 0.3 + s) for m, s, a in c['comps'])
        elif c['kind'] == 'mono':
            v = c['comps'][0][2] * u * 4
        elif c['kind'] == 'flat':
            v = c['comps'][0][2]
        else:
            m, s, a = c['comps'][0]
            v = -abs(u - m) / (s * cell)
        return float(max(v, -1e4) + c['off'])
    return f


def trap(x, v):
    return float(np.sum(0.5 * np.diff(x) * (v[1:] + v[:-1])))


def ltrap(x, v):
    l = np.logaddexp(v[1:], v[:-1]) + np.log(0.5 * np.diff(x))
    return float(logsumexp(l))


def check_points(ctx, g, r, f, seq, scale):
    n = len(g)
    ctx.check(n >= r['n'], 'fewer points (%s) than the base grid', n)
    P = [g.point(i) for i in range(n)]
    x = ctx.arr([p[0] for p in P], (n,), 'abscissas')
    w = ctx.arr([p[1] for p in P], (n,), 'widths')
    ctx.close(x[0], r['lo'], 1e-12, 1e-9 * scale, 'first point')
    ctx.close(x[-1], r['hi'], 1e-12, 1e-9 * scale, 'last point')
    ctx.check((np.diff(x) > 0).all(), 'abscissas are not increasing')
    ctx.allclose(w[:-1], np.diff(x), 1e-6, 1e-9 * scale, 'widths')
    ctx.check(w[-1] == 0., 'width of the last point is not 0')
    V = []
    for p in P:
        v = p[2]
        if seq:
            v = ctx.arr(v, (2,), 'point value')
            V.append(v)
            v = v[seq - 1]
        else:
            V.append(ctx.num(v, 'point value'))
        want = f(p[0])
        # abscissas carry roundoff, amplified by the slope of f
        h = 1e-9 * scale
        slack = abs(f(min(p[0] + h, r['hi'])) - f(max(p[0] - h, r['lo'])))
        ctx.close(v, want, 1e-9, 1e-9 + 2 * slack, 'value at x=%r' % p[0])
    # indexing and iteration agree with point()
    it = list(iter(g))
    ctx.equal(len(it), n, 'number of iterated points')
    one, two = iter(g), iter(g)     # independent of each other
    next(one)
    ctx.check(next(two)[0] == P[0][0] and next(one)[0] == P[1][0] and next(two)[0] == P[1][0], 'two iterations over a grid disturb each other')
    for i in (0, n // 2, n - 1):
        for q in (it[i], g[i]):
            ctx.check(q[0] == P[i][0] and q[1] == P[i][1] and np.all(q[2] == P[i][2]),
                      'iteration/indexing differs from point(%d)', i)
    ctx.raises(ValueError, lambda: g.point(n), 'point(n)')
    ctx.raises(ValueError, lambda: g.point(-1), 'point(-1)')
    return x, np.array(V)


def check_quad(ctx, g, r, x, V, seq):
    vals = V[:, seq - 1] if seq else V
    sel = seq - 1 if seq else None
    kw = dict(select=sel) if seq else {}
    lw = ltrap(x, vals)
    ctx.close(g.logtrapzd(**kw), lw, 1e-9, 1e-8, 'logtrapzd')
    q = g.trapzd(**kw)
    ref = trap(x, vals)
    ctx.close(q, ref, 1e-8, 1e-300 + 1e-8 * trap(x, np.abs(vals)), 'trapzd')
    ctx.close(g.logtrapzd_mom(**kw), lw, 1e-9, 1e-8, 'logtrapzd_mom()')
    fx = np.exp(vals - lw)
    m1, m2 = trap(x, fx * x), trap(x, fx * x * x)
    s1, s2 = trap(x, fx * abs(x)) + 1e-250 * np.abs(x).max(), trap(x, fx * x * x) + 1e-250 * np.abs(x).max() ** 2
    r1 = g.logtrapzd_mom(1, **kw)
    ctx.check(len(r1) == 2, 'logtrapzd_mom(1) returns 2 values')
    ctx.close(r1[0], lw, 1e-9, 1e-8, 'logtrapzd_mom(1)[0]')
    ctx.close(r1[1], m1, 0., 1e-7 * s1, 'first moment')
    r2 = g.logtrapzd_mom(2, **kw)
    ctx.close(r2[0], lw, 1e-9, 1e-8, 'logtrapzd_mom(2)[0]')
    ctx.close(r2[1], m1, 0., 1e-7 * s1, 'first moment')
    ctx.close(r2[2], m2, 0., 1e-7 * s2, 'second moment')


def t_grid(c, ctx):
    from inference.grid.grid1d import Grid1D
    r = c['r']
    f = make_f(c)
    scale = abs(r['hi'] - r['lo'])
    seq = c['seq']
    calls = vh.Counted(f, 300000, 'grid function')
    if seq:
        def fn(x):
            v = calls(x)
            t = [0.25 * x, 0.25 * x]
            t[seq - 1] = v
            return tuple(t)
    else:
        fn = calls
    g = Grid1D(r['lo'], r['hi'], r['n'], r['stype'], nmax=c['nmax'], dynrange=c['dynrange'],
               sigpts=c['sigpts'], nsig=c['nsig'], rank=c['rank'])
    ctx.equal(len(g), r['n'], 'length before refinement')
    ctx.raises(RuntimeError, lambda: g.refine(), 'refine before firstpass')
    if seq:
        g.firstpass(fn, seq - 1)
    else:
        g.firstpass(fn)
    ctx.equal(len(g), r['n'], 'length after the first pass')
    x, V = check_points(ctx, g, r, f, seq, scale)
    ctx.allclose(x, [to_x(r, i / (r['n'] - 1.)) for i in range(r['n'])], 1e-9, 1e-9 * scale, 'base grid')
    check_quad(ctx, g, r, x, V, seq)
    if g.rpts * 3 > MAXPTS:
        return
    n0 = len(g)
    g.refine(c['rdyn']) if c['rdyn'] else g.refine()
    x2, V2 = check_points(ctx, g, r, f, seq, scale)
    check_quad(ctx, g, r, x2, V2, seq)
    # no coarser than the base anywhere
    full = to_u(r, x2)
    ctx.check(np.diff(full).max() <= (1. + 1e-6) / (r['n'] - 1.), 'refined grid has a gap larger than the base step')
    ctx.event(c['kind'])
    ctx.event('refined' if len(g) > n0 else 'not_refined')
    ctx.nontrivial(len(g) > n0)


# ------------------------------------------------------------ resolves peaks
@st.composite
def peak_case(draw):
    log = draw(st.booleans())
    n = draw(st.integers(12, 60))
    if log:
        lo = draw(gen.logfl(1e-2, 1e2))
        hi = lo * draw(gen.fl(3., 1e3))
        if draw(st.integers(0, 4)) == 0:
            lo, hi = -hi, -lo
    else:
        lo = draw(gen.fl(-50., 50.))
        hi = lo + draw(gen.logfl(0.1, 1e3))
    u = draw(gen.unit())
    return dict(r=dict(lo=lo * u, hi=hi * u, n=n, stype='log' if log else 'lin', log=log),
                many=draw(st.integers(2, 40)) if not log and draw(st.integers(0, 3)) == 0 else 0,
                m=draw(gen.fl(0.2, 0.8)), s=draw(gen.logfl(0.08, 3.)), a=draw(gen.fl(-900., 900.)))


def peak_geom(c):
    """Mean and width (the width in base steps is reduced so that the peak
    has +/-8 sigma of room in the grid)."""
    r = c['r']
    m = to_x(r, c['m'])
    cell = to_x(r, c['m'] + 0.5 / (r['n'] - 1.)) - to_x(r, c['m'] - 0.5 / (r['n'] - 1.))
    room = min(m - r['lo'], r['hi'] - m) / 8.1 / cell
    s = min(c['s'], room)
    return m, s * cell, s


def t_comb(c, ctx):
    """Many separate Gaussians."""
    from inference.grid.grid1d import Grid1D
    r, k = c['r'], c['many']
    D = 20
    n = D * k + 1
    cell = (r['hi'] - r['lo']) / (n - 1.)
    s = min(max(c['s'], .3), 1.) * cell
    ph = (c['m'] - .5) * 2.
    cs = [r['lo'] + (D * (j + .5) + ph * np.cos(3. * j)) * cell for j in range(k)]
    amp = [c['a'] + np.sin(7. * j) for j in range(k)]

    def f(x):
        j = min(max(int((x - r['lo']) / (D * cell)), 0), k - 1)
        return float(amp[j] - 0.5 * ((x - cs[j]) / s) ** 2)
    g = Grid1D(r['lo'], r['hi'], n, r['stype'])
    g.firstpass(f)
    g.refine()
    ctx.close(g.logtrapzd(), logsumexp(amp) + np.log(s * np.sqrt(2 * np.pi)), 0., 5e-3, 'log integral of %d Gaussians after refinement' % k)
    w = np.exp(np.array(amp) - logsumexp(amp))
    q, m1, m2 = g.logtrapzd_mom(2)
    ctx.close(m1, np.dot(w, cs), 0., .02 * s + 1e-9 * np.abs(cs).max() + 5e-3 * (r['hi'] - r['lo']), 'mean of %d Gaussians' % k)
    # each is refined
    x = np.array([g.point(i)[0] for i in range(len(g))])
    for c0 in cs:
        near = x[(x > c0 - 2 * s) & (x < c0 + 2 * s)]
        ctx.check(len(near) >= 4, 'a peak at %r has %d points within 2 sigma', c0, len(near))
    ctx.event('many')
    ctx.nontrivial(s < cell)


def t_peak(c, ctx):
    """A Gaussian in x, down to a small fraction of the base step wide, is
    integrated accurately after refinement."""
    from inference.grid.grid1d import Grid1D
    r = c['r']
    if c['many']:
        return t_comb(c, ctx)
    m, s, srel = peak_geom(c)
    n = [0]

    def f(x):
        n[0] += 1
        return c['a'] - 0.5 * ((x - m) / s) ** 2
    g = Grid1D(r['lo'], r['hi'], r['n'], r['stype'])
    g.firstpass(f)
    g.refine()
    true = c['a'] + np.log(s * np.sqrt(2 * np.pi))
    ctx.close(g.logtrapzd(), true, 0., 5e-3, 'log integral of a Gaussian after refinement')
    q, m1, m2 = g.logtrapzd_mom(2)
    ctx.close(m1, m, 0., 0.02 * s + 1e-9 * abs(m), 'mean')
    ctx.close(m2 - m1 * m1, s * s, 0., 0.05 * s * s + 1e-9 * m * m, 'variance')
    ctx.check(len(g) <= 40 * r['n'] + 400, 'refinement used %d points', len(g))
    ctx.nontrivial(srel < 1.)
    ctx.event(('neg log' if r['lo'] < 0. else 'log') if r['log'] else 'lin')


check = vh.Check('P12', [
    vh.Sub('intervals', ilist_case(), t_ilist, quick=2500, thorough=60000, shards=3,
           rule='at least two updates actually refined the list'),
    vh.Sub('grid', grid_case(), t_grid, quick=900, thorough=20000, shards=4,
           rule='the refinement added points'),
    vh.Sub('peaks', peak_case(), t_peak, quick=500, thorough=8000,
           rule='peak narrower than the base step'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['grids with lo < hi (interval lists also reversed), 2..60 base points',
                 'abscissas may carry roundoff of 1e-9 of the range'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
