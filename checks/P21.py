"""P21: plots show the values they are given."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
os.environ['MPLBACKEND'] = 'Agg'
import pielib as L
import contextlib, warnings
import numpy as np
from hypothesis import strategies as st


@contextlib.contextmanager
def figures():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        with warnings.catch_warnings(), L.quiet():
            warnings.simplefilter('ignore')
            yield plt
    finally:
        plt.close('all')


def contours(ax):
    from matplotlib.contour import ContourSet
    return [k for k in ax.collections if isinstance(k, ContourSet)]


def segments(ax):
    from matplotlib.collections import LineCollection
    return [np.array(s) for k in ax.collections if type(k) is LineCollection for s in k.get_segments()]


def interp(x, y, z, p):
    """z[j, i] at (x[i], y[j]), bilinear; x and y may decrease."""
    def cell(g, v):
        s = 1. if g[-1] > g[0] else -1.
        k = int(np.searchsorted(s * g, s * v)) - 1
        k = min(max(k, 0), len(g) - 2)
        return k, (v - g[k]) / (g[k + 1] - g[k])
    i, u = cell(x, p[0])
    j, v = cell(y, p[1])
    return ((1 - u) * (1 - v) * z[j, i] + u * (1 - v) * z[j, i + 1] + (1 - u) * v * z[j + 1, i] + u * v * z[j + 1, i + 1])


def check_contours(ctx, ax, x, y, z, levels, what, colors=None):
    """z[j, i] is the value at (x[i], y[j]); levels in the order of their colors."""
    sets = contours(ax)
    ctx.equal(len(sets), 1, what + ': sets of contours')
    cs = sets[0]
    span = np.abs(z[np.isfinite(z)]).max() + 1.
    order = np.argsort(levels)
    ctx.allclose(cs.levels, np.array(levels)[order], 1e-9, 1e-9, what + ': contour levels')
    drawn = 0
    for k, (lev, path) in enumerate(zip(cs.levels, cs.get_paths())):
        verts = [v for v in path.vertices] if len(path.vertices) else []
        inside = z.min() + 1e-9 * span < lev < z.max() - 1e-9 * span
        if inside:
            ctx.check(len(verts) > 1, '%s: no contour at level %r', what, lev)
            drawn += 1
        for v in verts:
            ctx.close(interp(x, y, z, v), lev, 1e-6, 1e-6 * span, '%s: value on the contour of level %r at %r' % (what, lev, tuple(v)))
    if colors is not None:
        import matplotlib.colors as mc
        got = [tuple(mc.to_rgba(q)) for q in np.atleast_2d(cs.get_edgecolor())]
        want = [mc.to_rgba(colors if isinstance(colors, str) else colors[int(k) % len(colors)]) for k in order]
        if len(got) == len(want):
            ctx.check(np.allclose(got, want), '%s: contour colours do not belong to their levels', what)
    return drawn


def surface(c, x, y):
    """The log density logpdf[i, j] at (x[i], y[j])."""
    X, Y = np.meshgrid(x, y, indexing='ij')
    u = (X - x[0]) / (x[-1] - x[0])
    v = (Y - y[0]) / (y[-1] - y[0])
    a, b, s, t, r = c['shape']
    return c['max'] - .5 * c['amp'] * (((u - a) / s) ** 2 + ((v - b) / t) ** 2 - 2 * r * (u - a) * (v - b) / s / t)


@st.composite
def shape(draw):
    return dict(shape=[draw(gen.fl(0., 1.)), draw(gen.fl(0., 1.)), draw(gen.fl(.1, 1.)), draw(gen.fl(.1, 1.)), draw(gen.fl(-.9, .9))],
                max=draw(st.one_of(st.just(0.), gen.fl(-1e3, 1e3))), amp=draw(gen.logfl(.3, 30.)))


@st.composite
def axis(draw, decreasing=False):
    lo = draw(gen.fl(-50., 50.))
    d = draw(gen.logfl(1e-2, 1e2))
    a = [lo, lo + d]
    return dict(lo=a[0], hi=a[1], n=draw(st.integers(2, 12)))


def pts(a):
    return np.linspace(a['lo'], a['hi'], a['n'])


@st.composite
def bivar_case(draw):
    nl = draw(st.integers(1, 5))
    mode = draw(st.sampled_from(['default', 'default', 'levels', 'levels', 'plevels']))
    c = dict(s=draw(shape()), x=draw(axis()), y=draw(axis()), iorder=draw(st.sampled_from([None, 'xy', 'xy', 'yx', 'yx'])), mode=mode,
             lists=draw(st.booleans()))
    if mode == 'levels':
        c['frac'] = sorted({draw(gen.fl(.02, .98)) for _ in range(nl)})
        c['order'] = draw(st.permutations(list(range(len(c['frac'])))))
    elif mode == 'plevels':
        ps = sorted({draw(gen.fl(.05, .999)) for _ in range(nl)})
        c['plevels'] = [ps[k] for k in draw(st.permutations(list(range(len(ps)))))]
    c['cross'] = draw(st.one_of(st.none(), st.tuples(gen.fl(0., 1.), gen.fl(0., 1.))))
    c['gscale'] = draw(st.sampled_from([False, False, True, 3., 10.]))
    c['bar'] = draw(st.integers(0, 3)) == 0
    c['clabel'] = draw(st.integers(0, 4)) == 0
    c['labels'] = draw(st.sampled_from([None, ['alpha', 'beta']]))
    c['colors'] = draw(st.sampled_from([None, None, 'k', ['r', 'g', 'b']]))
    c['probe'] = [[draw(gen.fl(0., 1.)), draw(gen.fl(0., 1.))] for _ in range(3)]
    return c


def t_bivar(c, ctx):
    from inference.utils.plot_bivar import plot_bivar
    from scipy import stats
    x, y = pts(c['x']), pts(c['y'])
    lp = surface(c['s'], x, y)
    top = lp.max()
    kw = {}
    if c['iorder']:
        kw['iorder'] = c['iorder']
    arg = lp.T.copy() if c['iorder'] == 'yx' else lp.copy()
    if c['mode'] == 'default':
        # probability within k standard deviations of a normal distribution, k = 1 to 6
        rel = -.5 * stats.chi2(2).ppf(stats.chi2(1).cdf(np.arange(1, 7) ** 2.))
    elif c['mode'] == 'plevels':
        rel = np.log1p(-np.array(c['plevels']))         # bivariate normal: p = 1 - exp(dlogp)
        kw['plevels'] = list(c['plevels'])
    else:
        lev = lp.min() + np.array([c['frac'][k] for k in c['order']]) * (top - lp.min())
        if len(set(lev)) < len(lev) or np.diff(np.sort(lev)).min(initial=1.) < 1e-6:
            return
        rel = lev - top
        kw['levels'] = list(lev) if c['lists'] else lev.copy()
    if np.ptp(lp) < 1e-3:
        return
    if c['cross']:
        cross = (x[0] + c['cross'][0] * (x[-1] - x[0]), y[0] + c['cross'][1] * (y[-1] - y[0]))
        kw['cross'] = cross
    if c['gscale']:
        kw['gscale'] = c['gscale']
        kw['gscale_bar'] = c['bar']
    if c['clabel']:
        kw['clabel'] = True
    if c['labels']:
        kw['xlabel'], kw['ylabel'] = c['labels']
    if c['colors']:
        kw['colors'] = c['colors']
    with figures() as plt:
        fig, ax = plt.subplots()
        x1, y1, a1 = x.copy(), y.copy(), arg.copy()
        plot_bivar(x1, y1, a1, **kw)
        ctx.check((x1 == x).all() and (y1 == y).all() and (a1 == arg).all(), 'the arguments were altered')
        if 'levels' in kw:
            ctx.check(list(kw['levels']) == list(lev), 'the levels were altered')
        z = (lp - top).T
        if c['clabel']:
            ctx.equal(len(contours(ax)), 1, 'sets of contours')
            for t in ax.texts:
                ctx.check(any(t.get_text() == '%1.2f' % q for q in rel), 'contour label %r is none of the levels %r', t.get_text(), rel)
        else:
            n = check_contours(ctx, ax, x, y, z, rel, 'plot_bivar', c['colors'] or None)
            ctx.nontrivial(n > 0 and len(x) != 2)
        ctx.equal((ax.get_xlabel(), ax.get_ylabel()), tuple(c['labels'] or ('X', 'Y')), 'axis labels')
        if c['gscale']:
            ctx.equal(len(ax.images), 1, 'images')
            im = ax.images[0]
            ctx.allclose(np.asarray(im.get_array()), z, 1e-12, 1e-9 * (1. + abs(top)), 'image values')
            g = 10. if c['gscale'] is True else c['gscale']
            ctx.allclose(np.array(im.get_clim()), np.array([g * rel.min(), 0.]), 1e-9, 1e-9 * (1. + abs(top)), 'grey levels')
            ctx.allclose(np.array(im.get_extent()), np.array([x[0], x[-1], y[0], y[-1]]), 1e-12, 0., 'extent of the image')
            ctx.equal(im.origin, 'lower', 'origin of the image')
            ctx.equal(len(fig.axes), 2 if c['bar'] else 1, 'axes (colour bar)')
        else:
            ctx.equal(len(ax.images), 0, 'images')
        segs = segments(ax)
        ctx.equal(len(segs), 2 if c['cross'] else 0, 'lines of the cross')
        if c['cross']:
            want = [np.array([[x[0], cross[1]], [x[-1], cross[1]]]), np.array([[cross[0], y[0]], [cross[0], y[-1]]])]
            for w in want:
                ctx.check(any(np.allclose(s, w, 1e-12, 1e-12) for s in segs), 'the cross at %r is drawn as %r', cross, segs)
        for u, v in c['probe']:
            fi, fj = u * (len(x) - 1), v * (len(y) - 1)
            i, j = int(round(fi)), int(round(fj))
            if abs(fi - i) > .49 or abs(fj - j) > .49:
                continue
            px, py = x[0] + u * (x[-1] - x[0]), y[0] + v * (y[-1] - y[0])
            got = ax.format_coord(px, py)
            ctx.check(got == 'x=%1.4f, y=%1.4f, z=%1.4f' % (px, py, z[j, i]), 'format_coord gives %r; the value is %r', got, z[j, i])
        # more than half a step outside the grid there is no value
        for k, (u, v) in enumerate(c['probe']):
            side, d = (k + int(7 * v)) % 4, .6 + .9 * abs(u) % 2.
            dx, dy = (x[-1] - x[0]) / (len(x) - 1), (y[-1] - y[0]) / (len(y) - 1)
            px, py = x[0] + .5 * (x[-1] - x[0]), y[0] + .5 * (y[-1] - y[0])
            px, py = [(x[0] - d * dx, py), (x[-1] + d * dx, py), (px, y[0] - d * dy), (px, y[-1] + d * dy)][side]
            ctx.equal(ax.format_coord(px, py), 'x=%1.4f, y=%1.4f' % (px, py), 'read-out %.2f steps outside the grid' % d)
        far = (x[-1] + 2. * (x[-1] - x[0]), y[0])
        ctx.equal(ax.format_coord(*far), 'x=%1.4f, y=%1.4f' % far, 'format_coord outside the grid')
        ctx.raises(ValueError, lambda: plot_bivar(x, y, arg, iorder='zz'), 'illegal iorder')
    ctx.event(c['mode'])


@st.composite
def grid_case(draw):
    nd = draw(st.sampled_from([1, 1, 2, 2, 2, 3]))
    spec = draw(L.model(npar=(nd, max(nd, 3)), npred=(1, 1), nmax=4))
    names = draw(st.permutations([p['name'] for p in spec['pars']]))
    ax = []
    for k in range(nd):
        log = draw(st.integers(0, 5)) == 0
        lo = draw(gen.fl(.2, 3.) if log else gen.fl(-5., 3.))
        ax.append([names[k], lo, lo + draw(gen.fl(.5, 4.)), draw(st.integers(3, 6)), log])
    return dict(spec=spec, axes=ax, overlay=draw(st.booleans()), ylabel=draw(st.sampled_from([None, 'chi'])), gscale=draw(st.sampled_from([False, False, True, 4.])),
                frac=draw(gen.fl(.2, .8)))


def t_grid(c, ctx):
    spec, axes = c['spec'], c['axes']
    with L.built(spec) as ns, figures() as plt:
        i = ns['Inf']()
        for p in spec['pars']:
            setattr(i, p['name'], .5)
        for nm, lo, hi, n, log in axes:
            (getattr(i, nm).logstep if log else getattr(i, nm).linstep)(lo, hi, n)
        g = i.fit()
        vals = g.values.copy()
        old = plt.figure()
        plt.plot([0., 1.], [0., 1.])
        kw = dict(overlay=True) if c['overlay'] else {}
        if len(axes) > 2:
            ctx.raises(ValueError, g.plot, 'plot of three dimensions')
            return
        if any(a[4] for a in axes):
            ctx.raises(NotImplementedError, g.plot, 'plot of log steps')
            ctx.event('log')
            return
        if len(axes) == 1:
            if c['ylabel']:
                kw['ylabel'] = c['ylabel']
            g.plot(**kw)
        else:
            if np.ptp(vals) < 1e-6 * (1. + np.abs(vals).max()):
                return
            lev = vals.min() + c['frac'] * np.ptp(vals)
            if c['gscale']:
                g.plot(c['gscale'], levels=[lev], **kw)
            else:
                g.plot(levels=[lev], **kw)
        fig = plt.gcf()
        ctx.equal(fig is old, c['overlay'], 'plotted in the current figure')
        ax = fig.axes[0]
        nm, lo, hi, n, _ = axes[0]
        x = np.linspace(lo, hi, n)
        ctx.equal(ax.get_xlabel(), nm, 'label of the first axis')
        if len(axes) == 1:
            line = ax.lines[-1]
            ctx.allclose(np.asarray(line.get_xdata(), float), x, 1e-12, 1e-12, 'abscissas')
            ctx.allclose(np.asarray(line.get_ydata(), float), vals, 0., 0., 'values')
            ctx.equal(ax.get_ylabel(), c['ylabel'] or 'Log Score', 'label of the values')
        else:
            y = np.linspace(*axes[1][1:4])
            ctx.equal(ax.get_ylabel(), axes[1][0], 'label of the second axis')
            check_contours(ctx, ax, x, y, (vals - vals.max()).T, [lev - vals.max()], 'grid')
            ctx.equal(len(ax.images), 1 if c['gscale'] else 0, 'images')
            if c['gscale']:
                ctx.allclose(np.array(ax.images[0].get_clim()), np.array([(10. if c['gscale'] is True else c['gscale']) * (lev - vals.max()), 0.]),
                             1e-9, 1e-9 * np.abs(vals).max(), 'grey levels')
        ctx.check((g.values == vals).all(), 'plotting changed the values')
        ctx.event('%d-D' % len(axes))
        ctx.nontrivial(True)


@st.composite
def hpd_case(draw):
    nd = draw(st.sampled_from([1, 2, 2]))
    log = [nd == 2 and draw(st.integers(0, 3)) == 0 for _ in range(2)]
    ax = []
    for k in range(2):
        lo = draw(gen.fl(.2, 5.)) if log[k] else draw(gen.fl(-5., 5.))
        ax.append(dict(lo=lo, hi=lo + draw(gen.logfl(.5, 10.)), n=draw(st.integers(8, 24))))
    return dict(nd=nd, log=log, ax=ax, c=[draw(gen.fl(.3, .7)), draw(gen.fl(.3, .7))], w=[draw(gen.fl(.08, .2)), draw(gen.fl(.08, .2))],
                r=draw(gen.fl(-.7, .7)), max=draw(gen.fl(-20., 20.)), p=draw(st.permutations([.5, .68, .9]))[:draw(st.integers(1, 3))])


def t_hpd(c, ctx):
    from inference.grid import hpdgrid
    ax = c['ax']

    def f(x, y=None):
        u = ((x - ax[0]['lo']) / (ax[0]['hi'] - ax[0]['lo']) - c['c'][0]) / c['w'][0]
        if y is None:
            return c['max'] - .5 * u ** 2
        v = ((y - ax[1]['lo']) / (ax[1]['hi'] - ax[1]['lo']) - c['c'][1]) / c['w'][1]
        return c['max'] - .5 * (u * u + v * v - 2 * c['r'] * u * v)
    with figures() as plt:
        if c['nd'] == 1:
            g = hpdgrid.HPDGrid1D(f, ax[0]['lo'], ax[0]['hi'], 4 * ax[0]['n'], 'lin')
            for p in c['p']:
                g.critlevel(p)
            g.plot()
            a = plt.gca()
            curve = a.lines[0]
            xs = np.asarray(curve.get_xdata(), float)
            ctx.allclose(xs, np.linspace(ax[0]['lo'], ax[0]['hi'], 4 * ax[0]['n']), 1e-9, 1e-9, 'abscissas')
            ctx.allclose(np.asarray(curve.get_ydata(), float), np.array([np.exp(f(x)) for x in xs]), 1e-9, 0., 'density')
            ctx.equal(len(a.lines), 1 + len(c['p']), 'levels drawn')
            for k, lev in enumerate(g.levels):
                h = a.lines[1 + k]
                ctx.allclose(np.asarray(h.get_ydata(), float), np.exp([lev, lev]), 1e-9, 0., 'level')
                ctx.allclose(np.asarray(h.get_xdata(), float), np.array([xs[0], xs[-1]]), 1e-9, 1e-9, 'extent of the level')
        else:
            kind = ['log' if q else 'lin' for q in c['log']]
            g = hpdgrid.HPDGrid2D(f, ax[0]['lo'], ax[0]['hi'], ax[0]['n'], ax[1]['lo'], ax[1]['hi'], ax[1]['n'], kind[0], kind[1])
            for p in c['p']:
                g.critlevel(p)
            levels = list(g.levels)
            g.plot()
            a = plt.gca()
            x, y = [np.geomspace(q['lo'], q['hi'], q['n']) if lg else pts(q) for q, lg in zip(ax, c['log'])]
            z = np.array([[f(p, q) + (np.log(p) if c['log'][0] else 0.) + (np.log(q) if c['log'][1] else 0.) for p in x] for q in y])
            check_contours(ctx, a, x, y, z, levels, 'HPDGrid2D')
            ctx.equal(list(g.levels), levels, 'levels after plotting')
            ctx.event('2-D' + ('log' if any(c['log']) else ''))
        ctx.nontrivial(len(c['p']) > 1)


check = vh.Check('P21', [
    vh.Sub('bivar', bivar_case(), t_bivar, quick=900, thorough=15000, shards=3, rule='a contour crosses the grid'),
    vh.Sub('grid', grid_case(), t_grid, quick=300, thorough=5000, shards=2, rule='a plot was made'),
    vh.Sub('hpd', hpd_case(), t_hpd, quick=300, thorough=5000, shards=2, rule='several levels'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['matplotlib with the Agg backend is trusted', 'increasing axes'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
