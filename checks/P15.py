"""P15: fixed 2-D cubature rules are exact to their stated degree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import numpy as np
from math import gamma, factorial
from hypothesis import strategies as st

# name -> (degree, points), from the documented naming convention
PLANE = {'e2r2_3_4a': (3, 4), 'e2r2_9_21': (9, 21), 'e2r2_11_28a': (11, 28), 'e2r2_7_12': (7, 12),
         'e2_r2_3_4b': (3, 4), 'e2r2_13_36': (13, 36), 'e2r2_5_9b': (5, 9), 'e2r2_5_9a': (5, 9),
         'e2r2_13_41': (13, 41), 'e2r2_9_19a': (9, 19), 'e2r2_11_28c': (11, 28)}
SQUARE = {'square1d4pt': (1, 4), 'square3d4pt': (3, 4), 'square7d12pt': (7, 12)}
RECT = {'rect3d4pt': (3, 4), 'rect7d12pt': (7, 12)}


def monos(deg):
    return [(m, k - m) for k in range(deg + 1) for m in range(k + 1)]


@st.composite
def poly(draw, deg):
    """A polynomial of total degree <= deg, with the top degree present."""
    ms = monos(deg)
    top = [m for m in ms if sum(m) == deg]
    co = [[m[0], m[1], draw(gen.fl(-3., 3.))] for m in
          draw(st.lists(st.sampled_from(ms), min_size=0, max_size=6, unique=True))]
    t = draw(st.sampled_from(top))
    co.append([t[0], t[1], draw(st.sampled_from([1., -1., 2.5]))])
    return co


def ev(co, x, y):
    return sum(a * x ** m * y ** n for m, n, a in co)


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['plane', 'plane', 'dict', 'square', 'rect', 'rect', 'norm', 'norm']))
    src = dict(plane=PLANE, dict=PLANE, norm=PLANE, square=SQUARE, rect=RECT)[kind]
    name = draw(st.sampled_from(sorted(src)))
    c = dict(kind=kind, name=name, co=draw(poly(src[name][0])))
    if kind == 'rect':
        def side():
            a = draw(gen.fl(-10., 10.))
            w = draw(gen.logfl(1e-2, 20.)) * draw(st.sampled_from([1., 1., 1., -1.]))
            u = draw(gen.unit())
            return [a * u, (a + w) * u]
        c['xr'], c['yr'] = side(), side()
    if kind == 'norm':
        u = [draw(gen.unit()), draw(gen.unit())]
        c['locn'] = [draw(gen.fl(-5., 5.)) * u[0], draw(gen.fl(-5., 5.)) * u[1]]
        c['scale'] = [draw(gen.logfl(1e-2, 10.)) * u[0], draw(gen.logfl(1e-2, 10.)) * u[1]]
        c['default'] = draw(st.integers(0, 5)) == 0
        if c['default']:
            c['name'] = 'e2r2_7_12'
            c['co'] = draw(poly(7))
    c['const'] = draw(gen.fl(-2., 2.))
    return c


def gm(m):
    """int x^m exp(-x^2) dx over the line"""
    return 0. if m % 2 else gamma(0.5 * (m + 1))


def nmom(m, mu, s):
    """E x^m for N(mu, s)"""
    tot, ab = 0., 0.
    for k in range(0, m + 1, 2):
        e = factorial(k) / (2. ** (k // 2) * factorial(k // 2))
        t = factorial(m) / (factorial(k) * factorial(m - k)) * mu ** (m - k) * s ** k * e
        tot += t
        ab += abs(t)
    return tot, ab


def snap(mod):
    d = mod.rule_dict
    return {k: (np.array(v[1]), np.array(v[2])) for k, v in d.items()}


def t_rule(c, ctx):
    import importlib
    cub = importlib.import_module('inference.integrate.cub2d')
    kind, name, co = c['kind'], c['name'], c['co']
    deg, npts = dict(plane=PLANE, dict=PLANE, norm=PLANE, square=SQUARE, rect=RECT)[kind][name]
    before = snap(cub)
    pts, absum = [], [0.]

    def f(x, y):
        pts.append((float(x), float(y)))
        absum[0] += sum(abs(a * x ** m * y ** n) for m, n, a in co)
        return ev(co, x, y)
    want, size = 0., 0.
    if kind in ('plane', 'dict'):
        for m, n, a in co:
            want += a * gm(m) * gm(n)
            size += abs(a) * gamma(.5 * (m + 1)) * gamma(.5 * (n + 1))
        func, ab, wt = cub.rule_dict[name]
        if kind == 'plane':
            got = func(f)
        else:
            ab, wt = np.asarray(ab), np.asarray(wt)
            ctx.check(ab.shape == (npts, 2) and wt.shape == (npts,), 'rule shapes %s %s', ab.shape, wt.shape)
            ctx.check((wt > 0).all(), 'weights are not positive')
            got = sum(w * f(*p) for p, w in zip(ab, wt))
    elif kind == 'square':
        for m, n, a in co:
            t = a * (0. if m % 2 else 2. / (m + 1)) * (0. if n % 2 else 2. / (n + 1))
            want += t
            size += abs(a) * 4. / (m + 1) / (n + 1)
        got = getattr(cub, name)(f)
        ctx.check(all(abs(x) <= 1 and abs(y) <= 1 for x, y in pts), 'node outside the square')
        if name != 'square1d4pt':
            ctx.check(all(abs(x) < 1 and abs(y) < 1 for x, y in pts), 'node on the boundary')
    elif kind == 'rect':
        (a0, a1), (b0, b1) = c['xr'], c['yr']
        for m, n, a in co:
            t = a * (a1 ** (m + 1) - a0 ** (m + 1)) / (m + 1) * (b1 ** (n + 1) - b0 ** (n + 1)) / (n + 1)
            want += t
            X, Y = max(abs(a0), abs(a1)), max(abs(b0), abs(b1))
            size += abs(a) * X ** (m + 1) * Y ** (n + 1)
        got = getattr(cub, name)(f, tuple(c['xr']) if c['const'] > 0 else list(c['xr']), c['yr'])
        ctx.check(all(min(a0, a1) < x < max(a0, a1) and min(b0, b1) < y < max(b0, b1) for x, y in pts),
                  'node outside the rectangle')
    else:
        ctor = [c['locn'], c['scale']]
        o = cub.NormWtCub2D(*ctor) if c['default'] else cub.NormWtCub2D(ctor[0], np.array(ctor[1]), rule=name)
        if c['const'] > 0:      # another object must not disturb the first
            cub.NormWtCub2D([1., -2.], [3., 4.], rule=name)
        for m, n, a in co:
            mx, my = nmom(m, c['locn'][0], c['scale'][0]), nmom(n, c['locn'][1], c['scale'][1])
            want += a * mx[0] * my[0]
            size += abs(a) * mx[1] * my[1]
        got = o(f)
        n1 = len(pts)
        ctx.close(o(f), got, 0., 0., 'second application of the rule')
        del pts[n1:]
        ctx.close(o(lambda x, y: c['const']), c['const'], 1e-12, 1e-12, 'mean of a constant')
    ctx.equal(len(pts), npts, 'number of evaluations')
    ctx.equal(len(set(pts)), npts, 'number of distinct nodes')
    ctx.close(got, want, 0., 2e-12 * (size + absum[0]) + 1e-290, 'integral of a degree-%d polynomial' % deg)
    after = snap(cub)
    ctx.equal(sorted(after), sorted(before), 'rule names')
    for k in before:
        ctx.check((before[k][0] == after[k][0]).all() and (before[k][1] == after[k][1]).all(),
                  'rule %s was altered', k)
    ctx.event(kind)
    ctx.event(name)
    ctx.nontrivial(any(m > 0 and n > 0 for m, n, a in co))


@st.composite
def badnorm(draw):
    n = draw(st.sampled_from([0, 1, 3, 4]))
    return dict(n=n, which=draw(st.integers(0, 2)))


def t_badnorm(c, ctx):
    from inference.integrate.cub2d import NormWtCub2D
    bad = [1.] * c['n']
    a = bad if c['which'] != 1 else [1., 1.]
    b = bad if c['which'] != 0 else [1., 1.]
    ctx.raises(ValueError, lambda: NormWtCub2D(a, b), 'wrong lengths')
    ctx.raises(KeyError, lambda: NormWtCub2D([0., 0.], [1., 1.], rule='nosuch'), 'unknown rule')
    ctx.nontrivial()


check = vh.Check('P15', [
    vh.Sub('rules', case(), t_rule, quick=6000, thorough=100000, shards=3, tshards=6,
           rule='polynomial with a mixed x-y term'),
    vh.Sub('invalid', badnorm(), t_badnorm, quick=40, thorough=60, rule='all'),
], rule='distinct polynomials up to the stated degree with a mixed term',
    assumptions=['stated degrees and point counts are those of the documented rule names'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
