"""P18: minimisers (MinBracket, brent, linmin, powell)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import math
import numpy as np
from hypothesis import strategies as st

EPS = 2.3e-16


class Count(object):
    def __init__(self, f, limit, fail_at=None):
        self.f, self.n, self.limit, self.fail_at = f, 0, limit, fail_at
        self.seen = []

    def __call__(self, x):
        self.n += 1
        if self.n == self.fail_at:
            raise KeyError('injected')
        if self.n > self.limit:
            raise vh.CaseBudget('more than %d evaluations' % self.limit)
        self.seen.append(x)
        return self.f(x)


def shape(kind, u):
    if kind == 'quad':
        return u * u
    if kind == 'quart':
        return u ** 4
    if kind == 'abs':
        return abs(u)
    if kind == 'root':
        return math.sqrt(1. + u * u)
    if kind == 'log':
        return math.log1p(u * u)
    if kind == 'gauss':
        return -math.exp(-.5 * u * u)
    if kind == 'asym':
        return u * u * (9. if u > 0 else 1.)
    if kind == 'flat':
        return 1.
    if kind == 'plateau':
        return max(abs(u) - 1., 0.)
    if kind == 'wavy':
        return .3 * u * u + math.sin(4. * u)
    if kind == 'tri':       # minima at odd, maxima (all equal) at even numbers
        return abs(u % 2. - 1.)
    raise KeyError(kind)


UNI = ['quad', 'quad', 'quart', 'abs', 'root', 'log', 'gauss', 'asym']


def func(c):
    k, x0, w, a, off = c['kind'], c['c'], c['w'], c['a'], c['off']
    return lambda x: a * shape(k, (x - x0) / w) + off


@st.composite
def fn1(draw, kinds):
    w = draw(gen.logfl(1e-3, 1e3))
    return dict(kind=draw(st.sampled_from(kinds)), w=w, c=draw(gen.fl(-100., 100.)) * w,
                a=draw(gen.logfl(1e-4, 1e4)), off=draw(st.one_of(st.just(0.), gen.sgnfl(1e-3, 1e4))))


def noise(c):
    """How far from the minimum roundoff may hide a difference."""
    k = c['kind']
    f0 = abs(c['off']) / c['a'] + {'root': 1., 'gauss': 1.}.get(k, 0.)
    e = 16 * EPS * f0
    p = {'quart': .25, 'abs': 1.}.get(k, .5)
    return c['w'] * 2 * e ** p + 16 * EPS * (abs(c['c']) + c['w'])


@st.composite
def starts(draw):
    a = draw(gen.fl(-8., 8.))
    d = draw(gen.sgnfl(1e-3, 8.))
    if draw(st.integers(0, 5)) == 0:
        a = 0.
    return a, min(max(a + d, -9.), 9.)


@st.composite
def bracket_case(draw):
    f = draw(fn1(UNI + ['flat', 'plateau', 'wavy', 'wavy']))
    a, b = draw(starts())
    if f['kind'] == 'gauss':
        a, b = a * .5, b * .5
    return dict(f=f, a=a, b=b, fail=draw(st.one_of(st.none(), st.none(), st.integers(1, 6))))


def brak(c, f):
    from inference.utils.nrmin import MinBracket
    q = c['f']
    return MinBracket(f, q['c'] + q['w'] * c['a'], q['c'] + q['w'] * c['b'])


def check_bracket(ctx, c, b, f, limited=False):
    q = c['f']
    x1, xm, x2 = ctx.num(b.x1, 'x1'), ctx.num(b.xm, 'xm'), ctx.num(b.x2, 'x2')
    ctx.check(x1 < xm < x2, 'not a bracket: %r, %r, %r', x1, xm, x2)
    for nm, x, v in (('f1', x1, b.f1), ('fm', xm, b.fm), ('f2', x2, b.f2)):
        ctx.check(v == f(x), '%s = %r is not f(%r) = %r', nm, v, x, f(x))
    ctx.check(b.fm <= b.f1 and b.fm <= b.f2, 'middle value %r exceeds the ends %r, %r', b.fm, b.f1, b.f2)
    if q['kind'] in UNI:
        n = noise(q)
        ctx.check(x1 - n <= q['c'] <= x2 + n, 'the minimum %r is not inside [%r, %r]', q['c'], x1, x2)


def t_bracket(c, ctx):
    q = c['f']
    f = func(q)
    if c['a'] == c['b']:
        return
    if c['fail'] is not None:
        try:
            g = Count(f, 400, c['fail'])
            brak(c, g)
            ctx.check(g.n < c['fail'], 'an exception of the function was swallowed')
        except KeyError:
            ctx.event('injected')
    g = Count(f, 400)
    b = brak(c, g)
    check_bracket(ctx, c, b, f)
    lo, hi = sorted([q['c'] + q['w'] * c['a'], q['c'] + q['w'] * c['b']])
    ctx.check(b.fm <= min(f(lo), f(hi)), 'the bracket lost the lower of the starting values')
    ctx.event(q['kind'])
    ctx.nontrivial(g.n > 3)


@st.composite
def brent_case(draw):
    f = draw(fn1(UNI + ['wavy', 'flat', 'plateau']))
    a, b = draw(starts())
    if f['kind'] == 'gauss':
        a, b = a * .5, b * .5
    if draw(st.integers(0, 11)) == 0:       # a bracket of three equal values
        f = dict(kind='tri', w=2. ** draw(st.integers(-8, 8)), c=0., a=2. ** draw(st.integers(-4, 4)), off=float(draw(st.integers(-3, 3))))
        k = [draw(st.integers(-9, 9)), draw(st.integers(1, 5)), draw(st.integers(1, 5))]
        return dict(f=f, a=0., b=1., tri=[2. * k[0], 2. * (k[0] + k[1]), 2. * sum(k)], tol=draw(st.one_of(st.none(), gen.logfl(1e-9, 1e-3))), maxit=60, manual=True, fail=None)
    return dict(f=f, a=a, b=b, tol=draw(st.one_of(st.none(), gen.logfl(1e-9, 1e-1))),
                maxit=draw(st.integers(1, 60)), manual=draw(st.booleans()),
                lo=draw(gen.logfl(1e-2, 10.)), hi=draw(gen.logfl(1e-2, 10.)),
                fail=draw(st.one_of(st.none(), st.integers(1, 20))))


class Bracket(object):
    pass


def t_brent(c, ctx):
    from inference.utils.nrmin import brent, IterErr
    q = c['f']
    f = func(q)
    if c['a'] == c['b']:
        return
    if c['manual']:
        # a bracket of the user's own, around the minimum
        b = Bracket()
        u = (.3 * c['a'] / 9.) * min(c['lo'], c['hi']) if q['kind'] not in ('wavy', 'tri') else 0.
        if 'tri' in c:
            b.x1, b.xm, b.x2 = [q['w'] * t for t in c['tri']]
        else:
            b.xm = q['c'] + q['w'] * u
            b.x1, b.x2 = b.xm - q['w'] * c['lo'] * 2, b.xm + q['w'] * c['hi'] * 2
        b.f1, b.fm, b.f2 = f(b.x1), f(b.xm), f(b.x2)
        if not (b.x1 < b.xm < b.x2 and b.fm <= b.f1 and b.fm <= b.f2):
            ctx.event('no_bracket')
            return
    else:
        b = brak(c, Count(f, 400))
    ends = (b.x1, b.xm, b.x2, b.f1, b.fm, b.f2)
    kw = {} if c['tol'] is None else dict(tol=c['tol'])
    tol = 1e-6 if c['tol'] is None else c['tol']
    g = Count(f, 400)
    try:
        x, fx = brent(g, b, maxit=300, **kw)
    except IterErr:
        ctx.event('IterErr')
        ctx.check(g.n >= 300, 'gave up after %d evaluations', g.n)
        return
    ctx.num(x, 'x')
    ctx.check((b.x1, b.xm, b.x2, b.f1, b.fm, b.f2) == ends, 'the bracket was altered')
    slack = EPS * (abs(b.x1) + abs(b.x2))
    for y in g.seen:
        ctx.check(b.x1 - slack <= y <= b.x2 + slack, 'evaluated at %r outside the bracket [%r, %r]', y, b.x1, b.x2)
    ctx.check(fx == f(x), 'f = %r is not f(x) = %r at x = %r', fx, f(x), x)
    ctx.check(fx <= b.fm, 'f = %r exceeds the middle value %r of the bracket', fx, b.fm)
    lim = 3 * (tol * (abs(x) + abs(q['c'])) + 1e-10) + noise(q)
    if q['kind'] in UNI:
        ctx.check(abs(x - q['c']) <= lim, 'minimum of %s at %r, found %r (tolerance %.3g)', q['kind'], q['c'], x, lim)
    elif q['kind'] in ('wavy', 'tri') and lim < .05 * q['w']:
        for s in (-1, 1):
            y = x + s * 3 * lim
            if b.x1 < y < b.x2:
                ctx.check(f(y) >= fx - 16 * EPS * (abs(fx) + q['a']), 'not a local minimum: f(%r) < f(%r)', y, x)
    # the iteration limit
    n = g.n
    h = Count(f, 400)
    if c['maxit'] >= n:
        r = brent(h, b, maxit=c['maxit'], **kw)
        ctx.check(r[0] == x and r[1] == fx, 'a sufficient iteration limit changed the result')
    else:
        ctx.raises(IterErr, lambda: brent(h, b, maxit=c['maxit'], **kw), 'brent with %d of %d iterations' % (c['maxit'], n))
        ctx.check(h.n <= c['maxit'] + 2, '%d evaluations with maxit=%d', h.n, c['maxit'])
        ctx.event('limited')
    if c['fail'] is not None:
        try:
            h = Count(f, 400, c['fail'])
            brent(h, b, **kw)
            ctx.check(h.n < c['fail'], 'an exception of the function was swallowed')
        except KeyError:
            ctx.event('injected')
        except IterErr:
            pass
    ctx.event(q['kind'])
    ctx.nontrivial(n > 5)


# ----------------------------------------------------------------------------
@st.composite
def quad_nd(draw, nmax=5, units=True):
    n = draw(st.integers(1, nmax)) if draw(st.integers(0, 15)) < 15 else draw(st.integers(nmax, 8))
    ev = [10. ** draw(gen.fl(-1., 1.)) for _ in range(n)]
    rot = [draw(gen.fl(-3.2, 3.2)) for _ in range(n * (n - 1) // 2)]
    sc = [draw(gen.logfl(1e-2, 1e2)) * (draw(gen.unit()) if units else 1.) for _ in range(n)] if draw(st.booleans()) else [1.] * n
    c = [draw(gen.fl(-5., 5.)) * s for s in sc]
    p = [draw(gen.fl(-10., 10.)) * s for s in sc]
    return dict(ev=ev, rot=rot, sc=sc, c=c, p=p, k=draw(gen.logfl(1e-2, 1e3)),
                off=draw(st.one_of(st.just(0.), gen.sgnfl(1e-2, 1e3))),
                outer=draw(st.sampled_from(['id', 'id', 'root', 'quad2'])))


def build(c):
    n = len(c['ev'])
    A = np.diag(c['ev']).astype(float)
    it = iter(c['rot'])
    for i in range(n):
        for j in range(i + 1, n):
            t = next(it)
            R = np.eye(n)
            R[i, i] = R[j, j] = math.cos(t)
            R[i, j], R[j, i] = -math.sin(t), math.sin(t)
            A = R.dot(A).dot(R.T)
    S = np.diag(1. / np.array(c['sc']))
    A = S.dot(A).dot(S)
    A = .5 * (A + A.T)
    x0 = np.array(c['c'])

    def f(x):
        d = np.asarray(x, float) - x0
        q = float(d.dot(A.dot(d)))
        if c['outer'] == 'root':
            q = math.sqrt(1. + q)
        elif c['outer'] == 'quad2':
            q = q + .02 * q * q
        return c['k'] * q + c['off']
    return A, x0, f


@st.composite
def linmin_case(draw):
    q = draw(quad_nd())
    n = len(q['ev'])
    d = [draw(gen.sgnfl(1e-2, 10.)) * s for s in q['sc']]
    return dict(q=q, d=d, tol=draw(st.one_of(st.none(), gen.logfl(1e-7, 1e-2))))


def t_linmin(c, ctx):
    from inference.utils.nrmin import linmin
    q = c['q']
    A, x0, f = build(q)
    p, d = np.array(q['p']), np.array(c['d'])
    p_, d_ = p.copy(), d.copy()
    kw = {} if c['tol'] is None else dict(tol=c['tol'])
    tol = 1e-4 if c['tol'] is None else c['tol']
    g = Count(f, 2000)
    x, v, fx = linmin(g, p, d, **kw)
    x, v = ctx.arr(x, p.shape, 'point'), ctx.arr(v, d.shape, 'direction')
    ctx.check((p == p_).all() and (d == d_).all(), 'the arguments were altered')
    ctx.allclose(p + v, x, 1e-12, 1e-12 * np.abs(p), 'start + displacement')
    ctx.close(fx, f(x), 1e-9, 1e-12, 'function value')
    ctx.check(fx <= f(p) + EPS * abs(f(p)), 'the function grew from %r to %r', f(p), fx)
    l = d.dot(A.dot(x0 - p)) / d.dot(A.dot(d))
    i = int(np.argmax(np.abs(d)))
    got = v[i] / d[i]
    # height of the minimum along the line sets the roundoff in the position
    rest = abs(f(p + l * d)) + abs(q['off']) + q['k']
    curv = q['k'] * d.dot(A.dot(d)) * (1. if q['outer'] != 'root' else
                                       .3 / math.sqrt(1. + float((p + l * d - x0).dot(A.dot(p + l * d - x0)))))
    nz = 4 * math.sqrt(16 * EPS * rest / curv)
    ctx.close(got, l, 5 * tol, 1e-9 + nz, 'multiple of the direction')
    ctx.allclose(v, got * d, 1e-9, 1e-300, 'displacement along the direction')
    ctx.nontrivial(len(d) > 1)
    ctx.event('n=%d' % len(d))


@st.composite
def powell_case(draw):
    dr = draw(st.sampled_from(['none', 'none', 'diag', 'full', 'list']))
    q = draw(quad_nd(4, dr != 'none'))        # the default directions have unit length
    n = len(q['ev'])
    return dict(q=q, dr=dr, ds=[draw(gen.logfl(1e-2, 10.)) for _ in range(n)],
                m=[draw(gen.fl(-.3, .3)) for _ in range(n * n)], shuffle=draw(st.booleans()),
                ftol=draw(st.one_of(st.none(), gen.logfl(1e-9, 1e-3))), maxit=draw(st.integers(1, 6)),
                aslist=draw(st.booleans()), flat=draw(st.integers(0, 6)) == 0,
                fail=draw(st.one_of(st.none(), st.none(), st.integers(1, 200))))


def t_powell(c, ctx):
    from inference.utils.nrmin import powell, IterErr
    q = c['q']
    A, x0, f0 = build(q)
    n = len(x0)
    f = f0
    if c['flat']:
        # one more coordinate, on which the function does not depend
        f = lambda x: f0(x[:-1])
    m = n + bool(c['flat'])
    p = np.array(q['p'] + [1.5] * (m - n))
    ds = np.array((c['ds'] + [1.])[:m])
    sc = np.array((q['sc'] + [1.])[:m])
    dr = None
    if c['dr'] != 'none':
        D = np.diag(ds * sc)
        if c['dr'] == 'full':
            M = np.eye(m)
            M[:n, :n] += np.array(c['m']).reshape(n, n) / n
            D = np.diag(ds).dot(M).dot(np.diag(sc))
        dr = [r.copy() for r in D] if c['dr'] == 'list' else D
    keep = None if dr is None else [np.array(r) for r in dr]
    kw = {}
    if c['ftol'] is not None:
        kw['ftol'] = c['ftol']
    if dr is not None:
        kw['drxns'] = dr
    if c['shuffle']:
        kw['shuffle'] = True
    p_ = p.copy()
    arg = list(p) if c['aslist'] else p
    g = Count(f, 400000)
    maxit = 3000 if n <= 4 else 1000
    try:
        x, fx, it = powell(g, arg, maxit=maxit, **kw)
    except IterErr:
        ctx.event('IterErr')
        ctx.check(g.n > 200, 'gave up after %d evaluations', g.n)
        # a relative tolerance cannot be met when the minimum is zero; along a flat direction the
        # search drifts far away, which may ruin the later directions
        ctx.check(c['flat'] or abs(f0(x0)) < 1e-4 * q['k'] or max(q['ev']) > 5. * min(q['ev']), 'gave up on a quadratic function with minimum %r', f0(x0))
        return
    ctx.check((np.array(arg) == p_).all(), 'the starting point was altered')
    if dr is not None:
        ctx.check(len(dr) == m and all((np.array(a) == b).all() for a, b in zip(dr, keep)),
                  'the direction vectors were altered')
    x = ctx.arr(x, (m,), 'minimum')
    ctx.close(fx, f(x), 1e-9, 1e-12, 'function value at the minimum')
    ctx.check(fx <= f(p) + EPS * abs(f(p)), 'the function grew from %r to %r', f(p), fx)
    ctx.check(1 <= it <= maxit, 'number of iterations %r', it)
    fmin = f0(x0)
    ftol = 1e-6 if c['ftol'] is None else c['ftol']
    gap = fx - fmin
    lim = 300 * n * (ftol * (abs(fx) + abs(fmin)) + 1e-14 * q['k']) + 1e-8 * q['k']
    if max(q['ev']) > 5. * min(q['ev']):       # slow convergence may be taken for the end
        lim *= 30.
    ctx.check(c['flat'] or gap <= lim, 'the value %r exceeds the minimum %r by more than %.3g', fx, fmin, lim)
    # the iteration limit
    try:
        r = powell(Count(f, 60000), p, maxit=c['maxit'], **kw)
        ctx.check(it <= c['maxit'], '%d iterations needed, maxit=%d ignored', it, c['maxit'])
        ctx.check((r[0] == x).all() and r[2] == it, 'a sufficient iteration limit changed the result')
    except IterErr:
        ctx.check(it > c['maxit'] or it == c['maxit'], 'gave up although %d iterations suffice (maxit=%d)', it, c['maxit'])
        ctx.check(it > c['maxit'], 'gave up although %d iterations suffice', it)
        ctx.event('limited')
    if c['fail'] is not None:
        h = Count(f, 60000, c['fail'])
        try:
            powell(h, p, **kw)
            ctx.check(h.n < c['fail'], 'an exception of the function was swallowed')
        except KeyError:
            ctx.event('injected')
        except IterErr:
            pass
    ctx.nontrivial(n > 1)
    ctx.event('n=%d' % n)
    ctx.event('dr=' + c['dr'])
    if c['flat']:
        ctx.event('flat')


check = vh.Check('P18', [
    vh.Sub('bracket', bracket_case(), t_bracket, quick=6000, thorough=100000, shards=2,
           rule='more than the three initial evaluations'),
    vh.Sub('brent', brent_case(), t_brent, quick=4000, thorough=100000, shards=2, rule='more than five evaluations'),
    vh.Sub('linmin', linmin_case(), t_linmin, quick=2000, thorough=40000, shards=2, rule='two or more dimensions'),
    vh.Sub('powell', powell_case(), t_powell, quick=900, thorough=20000, shards=4, rule='two or more dimensions'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['functions with a minimum (flat ones included), double-precision noise allowed for',
                 'powell: condition number of the curvature at most 100 after scaling; scales of about 1 unless directions are given'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
