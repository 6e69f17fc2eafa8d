"""P23: sampling from discrete populations and piecewise linear densities (mc)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import pielib as L
import math, types
import numpy as np
from hypothesis import strategies as st


def kernel():
    """Reference for the C module _ppssampler, which is not built here: same functions, arguments and protocol."""
    rs = np.random.RandomState(12345)
    m = types.ModuleType('_ppssampler')

    class Sampler(object):
        def __init__(self, weights):
            w = np.array(weights, float)
            self.p = w / w.sum()
            self.wts = self.ratios = self.tables = None

        def sample(self, n):
            c = np.cumsum(self.p)
            c[-1] = 1.
            return np.searchsorted(c, rs.random_sample(n), side='right').clip(0, len(c) - 1)

        def prepwts(self, wts):
            w = np.array(wts, float)
            ind = np.argsort(-w, kind='stable')
            self.wts = w[ind]
            self.ind = ind
            return ind, w[ind], w.sum()

        def prepratios(self, n, swts, tot):
            if self.wts is None:
                raise RuntimeError('prepwts was not called')
            self.n = n
            self.q = np.array(swts, float) / tot
            d = np.maximum(1. - n * self.q, 1e-12)
            self.ratios = self.q / d
            self.tables = None

        def samplenr(self):
            if self.ratios is None:
                raise RuntimeError('prepratios was not called')
            k = 0
            r = np.cumsum(self.ratios / self.ratios.sum())
            c = np.cumsum(self.q)
            while True:
                k += 1
                if k > 20000:
                    raise vh.CaseBudget('rejection')
                u = rs.random_sample(self.n)
                s = [int(np.searchsorted(c, u[0] * c[-1], side='right'))] + [int(np.searchsorted(r, v * r[-1], side='right')) for v in u[1:]]
                s = [min(x, len(c) - 1) for x in s]
                if len(set(s)) == self.n:
                    return k, np.array(s)

        def prepratiotables(self):
            if self.ratios is None:
                raise RuntimeError('prepratios was not called')
            self.tables = True

        def samplenr5(self):
            if not self.tables:
                raise RuntimeError('the tables do not belong to the ratios')
            k, s = self.samplenr()
            return k, self.ind[s]

    def set_rng_state(ident, key, pos):
        rs.set_state((ident, key, pos))

    def get_rng_state():
        return rs.get_state()[:3]

    def equalprob(n, pool):
        return np.array(pool)[rs.permutation(len(pool))[:n]]
    m._ppssampler, m.set_rng_state, m.get_rng_state, m.equalprob = Sampler, set_rng_state, get_rng_state, equalprob
    return m


def load():
    if '_ppssampler' not in sys.modules:
        sys.modules['_ppssampler'] = kernel()
    import inference.mc
    return inference.mc


@st.composite
def pw_case(draw):
    n = draw(st.integers(2, 25))
    kind = draw(st.sampled_from(['any', 'gaps', 'flat', 'nearly flat', 'peak', 'log', 'log', 'log', 'edge']))
    cut = draw(st.sampled_from([None, 1e-9, 1e-3, .1, 0.]))
    around = kind == 'edge' or draw(st.booleans())      # values on both sides of the cutoff
    v = []
    m = n       # values drawn; long tables repeat them
    if draw(st.integers(0, 11)) == 11:
        n = draw(st.integers(26, 300))
    for k in range(n):
        if k >= m and kind != 'peak':
            v.append(v[k - m])
            continue
        if kind == 'flat':
            v.append(1.)
        elif kind == 'nearly flat':
            v.append(1. + draw(st.integers(-3, 3)) * 2. ** -draw(st.sampled_from([20, 40, 45, 52])))
        elif kind == 'gaps':
            v.append(draw(st.sampled_from([0., 0., 1e-12, 1., draw(gen.fl(.1, 5.))])))
        elif kind == 'peak':
            v.append(math.exp(-min((k - .4 * n) ** 2 * 2., 600.)))
        elif around and kind in ('log', 'edge'):
            v.append(math.log(cut or 1e-9) * draw(gen.fl(.1, 1.6)))
            if kind == 'edge':
                v[-1] = math.exp(v[-1])
        elif kind == 'log':
            v.append(draw(gen.fl(-30., 0.)) * draw(st.sampled_from([1., .1, 0.])))
        else:
            v.append(draw(gen.fl(0., 5.)))
    if around and kind in ('log', 'edge') and draw(st.booleans()):
        v[draw(st.integers(0, n - 1))] = 0. if kind == 'log' else 1.
    if kind != 'log' and max(v) <= 0.:
        v[draw(st.integers(0, n - 1))] = 1.
    lo = draw(gen.fl(-10., 10.))
    w = draw(gen.logfl(1e-2, 1e2))
    u = draw(gen.unit())
    lo, w = lo * u, w * u
    gaps = [draw(gen.fl(.05, 2.)) for _ in range(m - 1)]
    gaps = (gaps * n)[:n - 1]
    return dict(kind=kind, v=v, off=draw(gen.fl(-500., 500.)), scale=draw(gen.logfl(1e-5, 1e5)) * draw(gen.unit()), lo=lo, w=w, form=draw(st.sampled_from(['array', 'array', 'list', 'ints'])),
                absc=draw(st.integers(0, 3)) == 0, gaps=gaps, cut=cut, seed=draw(st.integers(0, 2 ** 31)),
                probe=[draw(gen.fl(-.1, 1.1)) for _ in range(8)])


def reference(c, v):
    """Abscissas, weights, and which intervals are kept."""
    n = len(v)
    if c['absc']:
        x = c['lo'] + c['w'] * np.concatenate([[0.], np.cumsum(c['gaps'])])
    else:
        x = np.linspace(c['lo'], c['lo'] + c['w'], n)
    cut = 1e-9 if c['cut'] is None else c['cut']
    if c['kind'] == 'log':
        cut = cut or 1e-9
        d = v - v.max()
        ok = d > math.log(cut)
        w = np.where(ok, np.exp(np.minimum(d, 0.)), 0.)
    else:
        w = v / v.max()
        ok = w > cut
    keep = ok[:-1] | ok[1:]
    return x, w, ok, keep, cut


def t_pw(c, ctx):
    mc = load()
    v = np.array(c['v'], float)
    log = c['kind'] == 'log'
    v = v + c['off'] if log else v * c['scale']
    if c['form'] == 'ints':
        v = np.round(v) if log else np.round(np.minimum(np.array(c['v']), 50.) * 3.)
        if not log and v.max() <= 0:
            v[0] = 2.
    n = len(v)
    x, w, ok, keep, cut = reference(c, v)
    margin = np.abs(v - v.max() - math.log(cut)).min() if log else np.abs(w - cut)[w > 0].min()
    if margin < 1e-9 * (1. if log else max(cut, 1e-300)):
        return
    arg = v.astype(int) if c['form'] == 'ints' else (list(v) if c['form'] == 'list' else v.copy())
    kw = dict(vals=arg, logvals=log)
    if c['cut'] is not None and (c['cut'] or not log):
        kw['cut'] = c['cut']
    xarg = x.copy()
    with np.errstate(all='ignore'), L.quiet():
        d = mc.PWLinear(absc=xarg, **kw) if c['absc'] else mc.PWLinear(x[0], x[-1], **kw)
        ctx.check(np.array_equal(np.array(arg, float), v) and np.array_equal(xarg, x), 'the arguments were altered')
        area = np.where(keep, .5 * (w[:-1] + w[1:]) * np.diff(x), 0.)
        norm = area.sum()

        def dens(q):
            k = min(max(int(np.searchsorted(x, q)) - 1, 0), n - 2)
            if q < x[0] or q > x[-1] or not keep[k]:
                return 0.
            u = (q - x[k]) / (x[k + 1] - x[k])
            return ((1 - u) * w[k] + u * w[k + 1]) / norm
        tol = 1e-7 * w.max() / norm + 2 * cut * (1 if not log else 0) / norm * 0.
        if not c['absc']:
            qs = []
            for u in c['probe']:
                q = x[0] + u * (x[-1] - x[0])
                if np.abs(q - x).min() > 1e-6 * (x[-1] - x[0]):
                    qs.append(q)
            want = np.array([dens(q) for q in qs])
            for q, r in zip(qs, want):
                ctx.close(float(d.pdf(q)), r, 1e-7, tol, 'density at %r' % q)
            if qs:
                ctx.allclose(d.pdf(np.array(qs)), want, 1e-7, tol, 'density at several points')
            for k in range(n):
                r = w[k] / norm if (k > 0 and keep[k - 1]) or (k < n - 1 and keep[k]) else 0.
                got = float(d.pdf(x[k]))
                # at the edge of a region the value and 0 are both the density up to the cutoff
                ctx.check(abs(got - r) <= tol + 1e-6 * r or (not ok[k] and abs(got) <= tol), 'density at grid point %d is %r, expected %r', k, got, r)
        # samples
        np.random.seed(c['seed'] % (2 ** 32))
        m = 400
        ns = 30 if c['seed'] % 3 else 300
        s = np.array([d.sample() for _ in range(ns)] + list(d.sample(m)), float)
        ctx.check(np.isfinite(s).all(), 'samples are not finite')
        eps = 1e-9 * (x[-1] - x[0])
        ctx.check((s >= x[0] - eps).all() and (s <= x[-1] + eps).all(), 'samples outside the domain: %r', [q for q in s if not x[0] - eps <= q <= x[-1] + eps][:3])
        k = np.clip(np.searchsorted(x, s) - 1, 0, n - 2)
        near = np.abs(s[:, None] - x[None, :]).min(1) < eps
        ctx.check((keep[k] | near).all(), 'a sample lies where the density is negligible')
        u = (s - x[k]) / (x[k + 1] - x[k])
        cdf = (np.concatenate([[0.], np.cumsum(area)])[k] + np.where(keep[k], (w[k] * u + .5 * (w[k + 1] - w[k]) * u * u) * (x[k + 1] - x[k]), 0.)) / norm
        # position within the interval, and over all: both uniform on (0, 1)
        half = .5 * (w[k] + w[k + 1])
        pos = (w[k] * u + .5 * (w[k + 1] - w[k]) * u * u) / np.where(half > 0, half, 1.)
        fine = keep[k] & (half > 0)
        for part, name in ((cdf[:ns], 'single'), (cdf[ns:], 'several'), (pos[:ns][fine[:ns]], 'single, position in the interval:'), (pos[ns:][fine[ns:]], 'several, position in the interval:')):
            if not len(part):
                continue
            t = np.sort(part)
            e = np.arange(len(t) + 1.) / len(t)
            D = max(np.abs(t - e[1:]).max(), np.abs(t - e[:-1]).max())
            # P(D > z / sqrt(n)) < 2 exp(-2 z^2) = 1e-11
            ctx.check(D < 3.6 / math.sqrt(len(t)), '%s samples differ from the density: KS statistic %r for %d', name, D, len(t))
        ctx.equal(np.shape(d.sample(5)), (5,), 'shape of samples')
        if c['absc']:
            # the density is not available for arbitrary steps: refused, or right
            q = .5 * (x[n // 2 - 1] + x[n // 2])
            try:
                got = d.pdf(q)
            except NotImplementedError:
                pass
            else:
                ctx.close(float(got), dens(q), 1e-7, tol, 'density at %r (arbitrary steps)' % q)
    ctx.event(c['kind'])
    ctx.nontrivial(n > 3 and c['kind'] != 'flat')


@st.composite
def pop_case(draw):
    n = draw(st.integers(2, 9))
    w = [draw(gen.fl(.2, 3.)) for _ in range(n)]
    if draw(st.integers(0, 11)) == 11:
        w = (w * 40)[:draw(st.integers(10, 80))]
        n = len(w)
    if draw(st.integers(0, 4)) == 0:        # the largest weight is exactly 1/k of the total
        k, W = draw(st.integers(2, 4)), draw(st.sampled_from([2, 3, 4]))
        rest, left = [], W
        while left:
            rest.append(draw(st.integers(1, min(W - 1, left))))
            left -= rest[-1]
        w = [float(q) for q in draw(st.permutations([W] * (k - 1) + rest))]
        n = len(w)
        ops = [[draw(st.sampled_from(['pps', 'pps5', 'max', 'sample'])), draw(st.sampled_from([k, k, k + 1, 1]))] for _ in range(draw(st.integers(1, 6)))]
        u = draw(gen.unit())
        return dict(w=[q * u for q in w], form=draw(st.sampled_from(['items', 'indices'])), ops=ops, seed=draw(st.integers(0, 2 ** 31)), tuple=draw(st.booleans()), exact=k)
    ops = [[draw(st.sampled_from(['sample', 'sample', 'pps', 'pps', 'pps5', 'pps5', 'max', 'normal'])), draw(st.integers(1, n + 1) if n < 10 else st.sampled_from([1, 2, 3, 5, 7, n, n + 1]))] for _ in range(draw(st.integers(1, 8)))]
    u = draw(gen.unit())
    return dict(w=[q * u for q in w], form=draw(st.sampled_from(['items', 'indices', 'equal', 'count'])), ops=ops, seed=draw(st.integers(0, 2 ** 31)), tuple=draw(st.booleans()))


def t_pop(c, ctx):
    mc = load()
    w = np.array(c['w'])
    n = len(w)
    names = ['item%d' % k for k in range(n)]
    equal = c['form'] in ('equal', 'count')

    def new():
        if c['form'] == 'items':
            return mc.Population(tuple(names) if c['tuple'] else list(names), list(w))
        if c['form'] == 'indices':
            return mc.Population(weights=w.copy())
        if c['form'] == 'equal':
            return mc.Population(list(names))
        return mc.Population(n)
    members = names if c['form'] in ('items', 'equal') else list(range(n))
    p = w / w.sum()
    seen = set()

    def run():
        b = new()
        np.random.seed(c['seed'] % (2 ** 32))
        out = []
        for op, k in c['ops']:
            if op == 'normal':
                out.append(np.random.normal())
            elif op == 'max':
                if not equal:
                    got = b.max_subset()
                    z = 1. / p.max()
                    if abs(z - round(z)) > 1e-9 or c.get('exact'):
                        ctx.equal(int(got), int(z), 'largest subset')
            elif op == 'sample':
                if equal:
                    continue
                pend = np.random.get_state()[3:]
                s = b.sample(k)
                ctx.check(np.random.get_state()[3:] == pend, 'sampling lost a pending normal deviate')
                ctx.equal(len(s), k, 'number of samples')
                ctx.check(all(q in members for q in s), 'a sample %r is no member', s)
                out.append(list(s))
                seen.add(op)
            else:
                f = b.subset_pps if op == 'pps' else b.subset_pps5
                if k != n and not equal and (k > n or k * p.max() > 1. + 1e-9):
                    ctx.raises(ValueError, lambda: f(k), 'subset of %d, largest normalized weight %r' % (k, p.max()))
                    seen.add('refused')
                    continue
                if k > n or (k != n and k * p.max() > .97 and not equal and k != c.get('exact')):
                    continue
                pend = np.random.get_state()[3:]
                if k == c.get('exact'):
                    seen.add('largest')
                s = f(k)
                ctx.check(np.random.get_state()[3:] == pend, 'drawing a subset lost a pending normal deviate')
                ctx.equal(len(s), k, 'size of the subset')
                ctx.check(len(set(s)) == k and all(q in members for q in s), 'the subset %r is not of distinct members', s)
                out.append(list(s))
                seen.add(op)
        return out
    with L.quiet():
        a, b = run(), run()
        ctx.check(a == b, 'the same seed and history gave different samples')
        ctx.raises(ValueError, lambda: mc.Population(names + ['x'], list(w)), 'weights and items that do not match')
    for s in seen:
        ctx.event(s)
    ctx.nontrivial(len(seen) > 1)


@st.composite
def freq_case(draw):
    n = draw(st.integers(3, 7))
    u = draw(gen.unit())
    return dict(w=[u * draw(gen.fl(.2, 1.)) for _ in range(n)], k=draw(st.integers(1, 3)), how=draw(st.sampled_from(['sample', 'pps', 'pps5', 'both'])), seed=draw(st.integers(0, 2 ** 31)),
                first=draw(st.integers(1, 2)))


def t_freq(c, ctx):
    mc = load()
    w = np.array(c['w'])
    n, p = len(w), w / w.sum()
    k = c['k']
    if c['how'] != 'sample' and k * p.max() > .9:
        k = 1
    names = ['m%d' % i for i in range(n)]
    N = 300
    with L.quiet():
        b = mc.Population(names, w.copy())
        np.random.seed(c['seed'] % (2 ** 32))
        if c['how'] == 'sample':
            got = [q for q in b.sample(N * k)]
            exp, var = N * k * p, N * k * p * (1 - p)
        else:
            got = []
            for t in range(N):
                five = c['how'] == 'pps5' or (c['how'] == 'both' and t % 2)
                if c['how'] == 'both' and t % 7 == 3 and c['first'] * p.max() < .9:
                    b.subset_pps(c['first'])
                got.extend(b.subset_pps5(k) if five else b.subset_pps(k))
            exp, var = N * k * p, N * k * p * (1 - k * p)
    for i in range(n):
        f = got.count(names[i])
        ctx.check(abs(f - exp[i]) <= 6.5 * math.sqrt(var[i] + 1.) + 1., '%s: member %d was drawn %d times, expected %r', c['how'], i, f, exp[i])
    ctx.nontrivial(True)


@st.composite
def one_case(draw):
    n = draw(st.integers(1, 8))
    return dict(v=[draw(gen.fl(-5., 5.)) for _ in range(n)], w=[draw(gen.fl(.1, 1.)) for _ in range(n)], err=draw(st.one_of(st.none(), st.just([draw(gen.fl(.1, 1.)) for _ in range(n)]))),
                plot=draw(st.integers(0, 3)) == 0, a=draw(st.one_of(st.none(), gen.fl(0., 2.))), b=draw(st.one_of(st.none(), gen.fl(0., 2.))))


def t_one(c, ctx):
    load()
    from inference.mc.population import Population1D
    v, w = np.array(c['v']), np.array(c['w'])
    w = w / w.sum()
    n = len(v)
    if len(set(c['v'])) < n:
        return
    kw = {} if c['err'] is None else dict(err=np.array(c['err']))
    b = Population1D(v.copy(), w.copy(), **kw)
    o = np.argsort(v)
    ctx.allclose(b.vals, v[o], 0., 0., 'sorted values')
    ctx.allclose(b.weights, w[o], 0., 0., 'weights of the sorted values')
    ctx.allclose(b.cdf, np.cumsum(w[o]), 1e-12, 0., 'cumulative distribution')
    start = None if c['a'] is None else v.min() - c['a']
    end = None if c['b'] is None else v.max() + c['b']
    r = b.haz_pts(start, end)
    ctx.equal(len(r), 2 if c['err'] is None else 5, 'arrays of points')
    x = np.concatenate([[v.min() if start is None else start], np.repeat(v[o], 2), [v.max() if end is None else end]])
    ctx.allclose(r[0], x, 0., 0., 'abscissas')
    y = ctx.arr(r[1], (2 * n + 2,), 'ordinates')
    ctx.check(y[0] == 1. and y[-1] == 0. and (np.diff(y) <= 1e-12).all(), 'ordinates %r do not fall from 1 to 0', y)
    if c['err'] is not None:
        e = np.concatenate([v[o], [v.max() if end is None else end]])
        ctx.allclose(r[2], .5 * (e[1:] + e[:-1]), 1e-12, 1e-12, 'abscissas of the errors')
        ctx.allclose(r[4], np.array(c['err'])[o], 0., 0., 'errors of the sorted values')
    if c.get('plot'):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        try:
            plt.close('all')
            plt.figure()
            b.plot(start, end)
            ax = plt.gca()
            ctx.check(len(ax.lines) >= 1, 'nothing was drawn')
            got = ax.lines[0]
            ctx.allclose(np.asarray(got.get_xdata(), float), r[0], 0., 0., 'abscissas drawn')
            ctx.allclose(np.asarray(got.get_ydata(), float), r[1], 0., 0., 'ordinates drawn')
            bars = [np.asarray(q, float) for cl in ax.collections for q in cl.get_segments()]
            ctx.equal(len(bars), 0 if c['err'] is None else n, 'error bars drawn')
            for q, ex, ey, ee in zip(bars, *(r[2:] if len(r) > 2 else ((), (), ()))):
                ctx.allclose(q, np.array([[ex, ey - ee], [ex, ey + ee]]), 1e-9, 1e-9, 'error bar drawn')
        finally:
            plt.close('all')
        ctx.event('plotted')
    ctx.raises(ValueError, lambda: b.haz_pts(v.min() + .1, None), 'range that does not span the values')
    ctx.raises(ValueError, lambda: b.haz_pts(None, v.max() - .1), 'range that does not span the values')
    ctx.nontrivial(n > 2)


check = vh.Check('P23', [
    vh.Sub('pwlinear', pw_case(), t_pw, quick=1500, thorough=40000, shards=4, rule='four or more values, not all equal'),
    vh.Sub('population', pop_case(), t_pop, quick=1200, thorough=20000, shards=2, rule='two or more kinds of sampling'),
    vh.Sub('onedim', one_case(), t_one, quick=300, thorough=4000, shards=1, rule='three or more values'),
    vh.Sub('frequencies', freq_case(), t_freq, quick=120, thorough=2000, shards=2, rule='all'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['the C sampler (_ppssampler) is not built in this environment and is replaced by a reference with its functions, arguments and protocol',
                 'statistical limits are 6.5 standard deviations (KS: 1e-11) at seeds fixed by the generator'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
