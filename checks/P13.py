"""P13: evaluation, quadrature, moments and subgrids of BasicGrid1D."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp


@st.composite
def basic_case(draw):
    log = draw(st.booleans())
    if log:
        lo = draw(gen.logfl(1e-4, 1e4))
        hi = lo * draw(gen.fl(1.05, 1e4))
        if draw(st.integers(0, 4)) == 0:
            lo, hi = -hi, -lo
    else:
        lo = draw(st.one_of(st.just(0.), st.integers(-20, 20).map(float), gen.fl(-100., 100.)))
        hi = lo + draw(st.one_of(st.integers(1, 100).map(float), gen.logfl(1e-2, 1e3)))
    n = draw(gen.skewint(2, 200))
    if draw(st.integers(0, 15)) == 15:
        n = draw(st.integers(201, 3000))
    u = draw(gen.unit())
    k = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    kind = draw(st.sampled_from(['free', 'free', 'wave', 'gauss', 'steep']))
    return dict(log=log, stype=draw(st.sampled_from(['log', 'logarithmic', 'LOG'] if log else
                                                    ['linear', 'lin', 'Linear'])),
                lo=lo * u, hi=hi * u, n=n, k=k, kind=kind,
                sel=draw(st.integers(0, max(k - 1, 0))),
                c=draw(st.lists(gen.fl(-3., 3.), min_size=6, max_size=6)),
                off=draw(st.sampled_from([0., 0., 0., -2000., 2000., 300.])),
                sub=[draw(st.integers(0, n - 1)) / (n - 1.) for _ in range(2)],
                mode=draw(st.sampled_from(['step', 'vec', 'vecseq'])),
                lml=draw(st.booleans()),
                again=draw(st.integers(0, 3)))


def absc(c):
    u = np.arange(c['n']) / (c['n'] - 1.)
    if c['log']:
        x = c['lo'] * np.exp(u * np.log(c['hi'] / c['lo']))
    else:
        x = c['lo'] + u * (c['hi'] - c['lo'])
    return x


def fval(c, x, j=0, shift=0.):
    """Vectorised log-integrand number j."""
    if c['log']:
        u = np.log(x / c['lo']) / np.log(c['hi'] / c['lo'])
    else:
        u = (x - c['lo']) / (c['hi'] - c['lo'])
    a, b, d, e, g, h = c['c']
    a = a + shift + 0.7 * j
    if c['kind'] == 'free':
        v = a * np.sin(7.3 * u + b) + d * np.cos(3.1 * u + e) + g * u * u
    elif c['kind'] == 'wave':
        v = 2 * np.sin((15. + 10. * a) * u + b) + d * u
    elif c['kind'] == 'gauss':
        v = a - 0.5 * ((u - 0.5 - 0.15 * b) / (0.02 + 0.1 * abs(d))) ** 2
    else:
        v = a + 400. * b * u
    return v + c['off']


def integ(x, v):
    return float(np.sum(0.5 * np.diff(x) * (v[1:] + v[:-1])))


def check_quads(ctx, g, x, vals, seq, sel, what):
    kw = dict(select=sel) if seq else {}
    scale = integ(x, np.abs(vals))
    ctx.close(g.trapzd(**kw), integ(x, vals), 0., 1e-10 * scale + 1e-300, what + ' trapzd')
    lq = float(logsumexp(np.logaddexp(vals[1:], vals[:-1]), b=0.5 * np.diff(x)))
    tol = 1e-10 * (1 + abs(lq)) + 1e-8
    ctx.close(g.logtrapzd(**kw), lq, 0., tol, what + ' logtrapzd')
    ctx.close(g.logtrapzd_mom(**kw), lq, 0., tol, what + ' logtrapzd_mom()')
    p = np.exp(vals - lq)
    r1 = g.logtrapzd_mom(1, **kw)
    r2 = g.logtrapzd_mom(nmom=2, **kw)
    ctx.equal(len(r1), 2, 'number of results for one moment')
    ctx.equal(len(r2), 3, 'number of results for two moments')
    m1 = integ(x, p * x)
    m2 = integ(x, p * x * x)
    for r in (r1, r2):
        ctx.close(r[0], lq, 0., tol, what + ' log integral with moments')
        ctx.close(r[1], m1, 0., 1e-8 * integ(x, p * np.abs(x)) + 1e-300, what + ' first moment')
    ctx.close(r2[2], m2, 0., 1e-8 * m2 + 1e-300, what + ' second moment')
    ctx.raises(ValueError, lambda: g.logtrapzd_mom(3, **kw), 'third moment')
    if seq:
        for m in (g.trapzd, g.logtrapzd, g.logtrapzd_mom):
            ctx.raises(ValueError, lambda: m(), 'sequence grid without select')
    else:
        for m in (g.trapzd, g.logtrapzd, g.logtrapzd_mom):
            ctx.raises(ValueError, lambda: m(select=0), 'scalar grid with select')


def check_pts(ctx, g, x, V, what, xtol):
    n = len(x)
    P = [g.point(i) for i in range(n)]
    ctx.allclose([p[0] for p in P], x, 0., xtol, what + ' abscissas')
    ctx.allclose([p[1] for p in P], np.append(np.diff(x), 0.), 1e-9, 4 * xtol, what + ' widths')
    ctx.check(P[-1][1] == 0., 'the last width is %r', P[-1][1])
    if V is None:
        ctx.check(all(p[2] is None for p in P), 'values exist before evaluation')
    else:
        ctx.allclose(np.array([np.asarray(p[2]) for p in P], float), V, 1e-12, 0., what + ' values')
    for bad in (-1, n, n + 3):
        ctx.raises(ValueError, lambda: g.point(bad), 'point(%d)' % bad)


def t_basic(c, ctx):
    from inference.grid.grid1d import BasicGrid1D, LabeledMaxList
    x = absc(c)
    n, k = c['n'], c['k']
    w = c['hi'] - c['lo']
    xtol = 1e-12 * max(abs(c['lo']), abs(c['hi']))
    lml = LabeledMaxList() if c['lml'] else None
    kw = dict(lml=lml) if c['lml'] else {}
    g = BasicGrid1D(c['lo'], c['hi'], n, c['stype'], **kw)
    check_pts(ctx, g, x, None, 'empty grid', xtol)
    for m in (g.trapzd, g.logtrapzd, g.logtrapzd_mom):
        ctx.raises(RuntimeError, m, 'quadrature of an empty grid')
    mode = c['mode']
    shift = 0.
    for rep in range(1 + (c['again'] == 0)):
        if rep:
            # a second evaluation replaces the first; tuple <-> scalar also
            shift = 0.5
            k = c['k'] if c['sub'][0] < 0.5 else (0 if c['k'] else 2)
            mode = 'vec' if c['mode'] == 'step' and c['sub'][1] < .5 else c['mode']
        seen = []
        sel = min(c['sel'], max(k - 1, 0))
        if mode == 'step':
            tl = list if rep else tuple

            def f(xx):
                seen.append(float(xx))
                if k:
                    return tl(float(fval(c, xx, j, shift)) for j in range(k))
                return float(fval(c, xx, 0, shift))
            if k:
                g.stepfunc(f, select=sel)
            else:
                g.stepfunc(f)
        else:
            def f(xx):
                seen.extend([float(v) for v in xx])
                if k:
                    return np.array([fval(c, xx, j, shift) for j in range(k)]).T
                return fval(c, xx, 0, shift)
            if k:
                g.vecfunc(f, sel)
            else:
                g.vecfunc(f)
        ctx.equal(len(seen), n, 'number of function evaluations')
        ctx.allclose(sorted(seen), x, 0., xtol, 'points of evaluation')
        ctx.check(min(seen) == c['lo'] and max(seen) == c['hi'],
                  'evaluated at [%r, %r], not the exact range', min(seen), max(seen))
        xs = np.array(sorted(seen))
        V = np.array([fval(c, xs, j, shift) for j in range(max(k, 1))])
        vals = V[sel]
        check_pts(ctx, g, x, V.T if k else V[0], 'grid', xtol)
        check_quads(ctx, g, x, vals, k, sel, 'grid')
        # a second round: quadratures do not alter the grid
        check_pts(ctx, g, x, V.T if k else V[0], 'grid after quadrature', xtol)
    # subgrids at grid points
    i, j = sorted(int(round(u * (n - 1))) for u in c['sub'])
    if i == j:
        i, j = 0, n - 1
    sg = g.subgrid(float(x[i]) if i else c['lo'], float(x[j]) if j < n - 1 else c['hi'])
    check_pts(ctx, sg, x[i:j + 1], (V.T if k else V[0])[i:j + 1], 'subgrid', 10 * xtol)
    check_quads(ctx, sg, x[i:j + 1], vals[i:j + 1], k, sel, 'subgrid')
    # adjoining subgrids sum to the whole
    if 0 < i < n - 1:
        kw = dict(select=sel) if k else {}
        a = g.subgrid(c['lo'], float(x[i])).trapzd(**kw)
        b = g.subgrid(float(x[i]), c['hi']).trapzd(**kw)
        ctx.close(a + b, integ(x, vals), 0., 1e-9 * integ(x, np.abs(vals)) + 1e-300, 'sum of two subgrids')
        # off-grid and out-of-range subgrids are refused
        for part in (.3, .008, .06, .15, .5, .9, .97, .996):
            mid = x[i] * (x[i + 1] / x[i]) ** part if c['log'] else x[i] + part * (x[i + 1] - x[i])
            ctx.raises(ValueError, lambda: g.subgrid(float(mid), c['hi']), 'off-grid lo')
            ctx.raises(ValueError, lambda: g.subgrid(c['lo'], float(mid)), 'off-grid hi')
        ctx.event('interior_subgrid')
    ctx.raises(ValueError, lambda: g.subgrid(c['lo'] - w, c['hi']), 'subgrid below the grid')
    ctx.raises(ValueError, lambda: g.subgrid(c['lo'], c['hi'] + w), 'subgrid above the grid')
    ctx.event('seq' if k else 'scalar')
    ctx.event(mode)
    ctx.event('log' if c['log'] else 'lin')
    ctx.nontrivial(n >= 3 and np.ptp(vals) > 0)


# --------------------------------------------- maxima found on a basic grid
@st.composite
def max_case(draw):
    log = draw(st.booleans())
    if log:
        lo = draw(gen.logfl(1e-3, 1e3))
        hi = lo * draw(gen.fl(1.2, 1e3))
    else:
        lo = draw(gen.fl(-50., 50.))
        hi = lo + draw(gen.logfl(0.1, 1e3))
    n = draw(gen.skewint(3, 40 if draw(st.integers(0, 15)) else 120))
    lev = st.one_of(st.integers(-3, 3).map(float), gen.fl(-20., 20.).map(lambda v: round(v, 3)))
    u = draw(gen.unit())
    return dict(log=log, lo=lo * u, hi=hi * u, n=n, vals=draw(st.lists(lev, min_size=n, max_size=n)),
                seq=draw(st.sampled_from([0, 0, 1, 2])), vec=draw(st.booleans()),
                rank=draw(st.sampled_from(['peak', 'area', 'Peak', 'AREA'])),
                nmax=draw(st.sampled_from([None, None, 1, 3])))


def quad_peak(x, y):
    """Vertex of the parabola through three points -> logA, mean, sigma."""
    d = np.polyfit((x - x[1]) / (x[2] - x[0]), y, 2)
    w = x[2] - x[0]
    m = -d[1] / (2 * d[0])
    return y[1] - 0 + d[0] * 0 + (d[2] - y[1]) - d[1] ** 2 / (4 * d[0]), x[1] + w * m, w * np.sqrt(-0.5 / d[0])


def t_max(c, ctx):
    from inference.grid.grid1d import BasicGrid1D, LabeledMaxList
    n = c['n']
    if c['log']:
        x = c['lo'] * np.exp(np.arange(n) / (n - 1.) * np.log(c['hi'] / c['lo']))
    else:
        x = c['lo'] + np.arange(n) / (n - 1.) * (c['hi'] - c['lo'])
    x[-1] = c['hi']
    y = np.array(c['vals'])
    lml = LabeledMaxList(nmax=c['nmax'])
    g = BasicGrid1D(c['lo'], c['hi'], n, 'log' if c['log'] else 'linear', lml=lml, rank=c['rank'])

    def look(xx):
        return y[int(np.argmin(np.abs(x - xx)))]
    s = c['seq']
    if c['vec']:
        if s:
            def f(xx):
                z = np.array([[look(v), look(v)] for v in xx])
                z[:, 2 - s] = 1.
                return z
            g.vecfunc(f, s - 1)
        else:
            g.vecfunc(lambda xx: np.array([look(v) for v in xx]))
    else:
        if s:
            def f(xx):
                z = [1., 1.]
                z[s - 1] = look(xx)
                return tuple(z)
            g.stepfunc(f, select=s - 1)
        else:
            g.stepfunc(look)
    area = c['rank'].lower() == 'area'
    want = []
    for i in range(1, n - 1):
        if y[i] > y[i - 1] and y[i] >= y[i + 1]:
            la, m, sg = quad_peak(x[i - 1:i + 2], y[i - 1:i + 2])
            want.append((la + np.log(sg * np.sqrt(2 * np.pi)) if area else la, i, la, m, sg))
    if y[0] > y[1]:
        sg = 0.5 * (x[1] - x[0]) / (y[0] - y[1])
        want.append((y[0] + np.log(0.5 * sg * np.sqrt(2 * np.pi)) if area else y[0], 0, y[0], x[0], sg))
    if y[-1] > y[-2]:
        sg = 0.5 * (x[-1] - x[-2]) / (y[-1] - y[-2])
        want.append((y[-1] + np.log(0.5 * sg * np.sqrt(2 * np.pi)) if area else y[-1], n - 1, y[-1], x[-1], sg))
    for t in range(len(want)):
        ctx.check(np.isfinite(want[t]).all(), 'bad reference')
    got = list(lml)
    ctx.equal(len(got), len(want) if c['nmax'] is None else min(len(want), c['nmax']), 'number of maxima')
    meas = [q for q, lab in got]
    ctx.check(all(a >= b for a, b in zip(meas, meas[1:])), 'maxima are not sorted: %r', meas)
    ref = {w[1]: w for w in want}
    seen = set()
    for q, lab in got:
        i, la, m, sg = lab
        ctx.check(i in ref and i not in seen, 'spurious maximum at %r', i)
        seen.add(i)
        w = ref[i]
        # parabolas through nearly equal values lose relative accuracy
        loose = 1e-6
        ctx.close(la, w[2], loose, loose, 'peak log amplitude at %d' % i)
        ctx.close(m, w[3], loose, loose * (c['hi'] - c['lo']), 'peak location at %d' % i)
        ctx.close(sg, w[4], loose, 0., 'peak width at %d' % i)
        ctx.close(q, w[0], loose, loose, 'ranking measure at %d' % i)
    if c['nmax'] is not None and len(want) > c['nmax']:
        cut = sorted((w[0] for w in want), reverse=True)[c['nmax'] - 1]
        ctx.check(all(q >= cut - 1e-5 for q in meas), 'a lower maximum was kept over a higher one')
    ctx.event('n=%d' % min(len(want), 4))
    ctx.nontrivial(len(want) >= 2)


check = vh.Check('P13', [
    vh.Sub('basic', basic_case(), t_basic, quick=3000, thorough=60000, shards=4, tshards=6,
           rule='at least 3 points and a non-constant integrand'),
    vh.Sub('maxima', max_case(), t_max, quick=2500, thorough=60000, shards=2, tshards=4,
           rule='at least two local maxima'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['lo < hi; log grids on either side of zero', 'finite function values'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
