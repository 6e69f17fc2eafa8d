"""P17: adaptive cubature of vector functions (adapt_vec)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import cublib as C
import numpy as np
from hypothesis import strategies as st

DEG = {1: 13, 2: 11, 3: 9, 4: 7}


def rule(nd, key):
    """(points per region, degree)"""
    if key == 0:
        key = {2: 1, 3: 2}.get(nd, 3)
    if key == 1:
        return 65, 13
    if key == 2:
        return 127, 11
    if key == 3:
        return (1 + 8 * nd + 6 * nd * (nd - 1) + 4 * nd * (nd - 1) * (nd - 2) // 3 + 2 ** nd), 9
    return 1 + 6 * nd + 2 * nd * (nd - 1) + 2 ** nd, 7


@st.composite
def dim_key(draw, ndmax=6):
    nd = draw(st.sampled_from([2, 2, 2, 3, 3, 3, 4, 5, ndmax]))
    keys = [0, 0, 3, 4]
    if nd == 2:
        keys += [1]
    if nd == 3:
        keys += [2]
    return nd, draw(st.sampled_from(keys))


def call(form, nf, fs, r, releps, **kw):
    """fs: list of Fn-like of x (a Fn is the first)."""
    from inference.integrate.adapt_vec import adapt_vec
    lo, hi = np.array(r['lo']), np.array(r['hi'])
    if form == 'array':
        v = lambda x: np.array(fs(x))
    elif form == 'list':
        v = lambda x: [float(q) for q in fs(x)]
    else:
        def v(x, n, res):
            res[:] = fs(x)
            return res
    if kw.pop('aslist', False):
        out = adapt_vec(nf, v, list(r['lo']), tuple(r['hi']), releps, **kw)
    else:
        out = adapt_vec(nf, v, lo, hi, releps, **kw)
        if not ((lo == r['lo']).all() and (hi == r['hi']).all()):
            raise vh.Violation('the bounds were altered')
    return out


forms = st.sampled_from(['array', 'list', 'fill'])


@st.composite
def smooth_case(draw):
    nd, key = draw(dim_key())
    nf = draw(st.sampled_from([1, 2, 3, 5, 1, 2, 3, 5, 1, 2, 3, 5, 13 if nd < 4 else 5]))
    return dict(r=draw(C.region(nd)), fs=[draw(C.smooth(nd)) for _ in range(nf)], key=key, form=draw(forms),
                releps=draw(st.one_of(st.just(0.), gen.logfl(1e-9, 1e-2))),
                aeps=draw(st.one_of(st.just(0.), gen.logfl(1e-8, 1e-2))), aslist=draw(st.booleans()),
                minpts=draw(st.sampled_from([None, 0, 1000, 3000])), maxpts=draw(st.sampled_from([None, 20000, 5000])),
                fail=draw(st.one_of(st.none(), st.none(), st.integers(1, 300))))


def t_smooth(c, ctx):
    r, key = c['r'], c['key']
    nd, nf = len(r['lo']), len(c['fs'])
    num, deg = rule(nd, key)
    vol = float(np.prod(np.array(r['hi']) - np.array(r['lo'])))
    want = np.array([vol * C.finteg(f) for f in c['fs']])
    releps = c['releps'] if c['releps'] or c['aeps'] else 1e-5
    big, small = np.abs(want).max(), np.abs(want).min()
    aeps = c['aeps'] * float(small if big < 1e7 * small else big)      # components in different units: the largest counts
    kw = dict(aslist=c['aslist'])
    if key:
        kw['key'] = key
    if aeps:
        kw['abseps'] = aeps
    if c['minpts'] is not None:
        kw['minpts'] = c['minpts']
    if c['maxpts'] is not None:
        kw['maxpts'] = c['maxpts']
    maxpts = c['maxpts'] or 100000
    f = C.Fn(r, lambda u: [C.fval(g, u) for g in c['fs']])
    try:
        out = call(c['form'], nf, f, r, releps, **kw)
    except ValueError as e:
        ctx.check('accuracy' in str(e), 'unexpected ValueError: %s', e)
        ctx.check(f.n > maxpts - 2 * num - 1, 'gave up after %d of %d evaluations', f.n, maxpts)
        ctx.event('gave_up')
        return
    ctx.check(len(out) == 3, 'adapt_vec returned %d values', len(out))
    res = ctx.arr(out[0], (nf,), 'result')
    err = ctx.arr(out[1], (nf,), 'abserr')
    neval = out[2]
    ctx.check(f.out is None, 'evaluated outside the region: %r', f.out)
    ctx.equal(neval, f.n, 'number of evaluations')
    ctx.check(neval <= maxpts, '%d evaluations exceed maxpts=%d', neval, maxpts)
    ctx.check(neval >= (c['minpts'] or 0), '%d evaluations, minpts=%r', neval, c['minpts'])
    goal = np.maximum(aeps, releps * np.abs(res))
    ctx.check((err <= goal * (1 + 1e-9)).all() and (err >= 0).all(),
              'estimated errors %r exceed the goal %r', err, goal)
    tol = 3 * goal + 1e-9 * np.abs(want)
    ctx.check((np.abs(res - want) <= tol).all(), 'results %r, true values %r (tolerance %r)', res, want, tol)
    if c['fail'] is not None:
        g = C.Fn(r, lambda u: [C.fval(q, u) for q in c['fs']])
        g.fail_at = c['fail']
        try:
            call(c['form'], nf, g, r, releps, **kw)
            ctx.check(g.n < c['fail'], 'an exception of the integrand was swallowed')
        except KeyError:
            ctx.event('injected')
    ctx.event('nd=%d' % nd)
    ctx.event('key=%d' % key)
    ctx.nontrivial(neval > 3 * num and nf > 1)
    ctx.event('divided' if neval > 3 * num else 'minimal')


@st.composite
def poly_case(draw):
    nd, key = draw(dim_key(ndmax=5))
    deg = rule(nd, key)[1]
    nf = draw(st.sampled_from([1, 2, 3]))
    ts = [draw(C.poly(nd, deg if i == 0 else draw(st.integers(0, deg)))) for i in range(nf)]
    return dict(r=draw(C.region(nd)), ts=ts, key=key, form=draw(forms),
                releps=draw(gen.logfl(1e-6, 1e-1)))


def t_poly(c, ctx):
    """Exact up to the degree of the rule, whatever accuracy is asked for."""
    r, key = c['r'], c['key']
    nd, nf = len(r['lo']), len(c['ts'])
    vol = float(np.prod(np.array(r['hi']) - np.array(r['lo'])))
    size = np.array([sum(abs(a) for e, a in t) for t in c['ts']])
    want = np.array([C.pinteg(t) for t in c['ts']])
    f = C.Fn(r, lambda v: [C.pval(t, v) for t in c['ts']], unit=False)
    try:
        out = call(c['form'], nf, f, r, c['releps'], abseps=float(c['releps'] * size.min() * vol), key=key,
                   maxpts=30000)
    except ValueError as e:
        ctx.check(f.n > 20000, 'gave up after %d evaluations: %s', f.n, e)
        ctx.event('gave_up')
        return
    res = ctx.arr(out[0], (nf,), 'result')
    tol = 1e-9 * vol * size
    ctx.check((np.abs(res - vol * want) <= tol).all(),
              'polynomials of degree <= %d: %r, exact %r', rule(nd, key)[1], res, vol * want)
    ctx.event('nd=%d' % nd)
    ctx.event('key=%d' % key)
    ctx.nontrivial()


@st.composite
def bad_case(draw):
    return dict(kind=draw(st.sampled_from(['key', 'key12', 'nd1', 'nd16', 'volume', 'maxpts', 'minpts', 'eps',
                                           'nfun'])),
                nd=draw(st.integers(2, 6)), key=draw(st.sampled_from([-1, 5, 6, 17])))


def t_bad(c, ctx):
    nd, kind = c['nd'], c['kind']
    kw = {}
    nf, rel = 1, 1e-3
    if kind == 'nd1':
        nd = 1
    if kind == 'nd16':
        nd = 16
    r = dict(lo=[0.] * nd, hi=[1.] * nd)
    if kind == 'key':
        kw['key'] = c['key']
    if kind == 'key12':
        kw['key'] = 1 if nd != 2 else 2
    if kind == 'volume':
        r['hi'][nd // 2] = 0.
    if kind == 'maxpts':
        kw['maxpts'] = 3 * rule(nd, 0)[0] - 1
    if kind == 'minpts':
        kw['minpts'], kw['maxpts'] = 30001, 30000
    if kind == 'eps':
        kw['abseps'], rel = -1., -1e-3
    if kind == 'nfun':
        nf = 0
    n = [0]

    def f(x):
        n[0] += 1
        return [1.] * nf
    ctx.raises(Exception if kind == 'nfun' else ValueError, lambda: call('array', nf, f, r, rel, **kw), kind)
    ctx.nontrivial()
    ctx.event(kind)


@st.composite
def together_case(draw):
    nd, key = draw(dim_key(ndmax=4))
    return dict(r=draw(C.region(nd)), f=draw(C.smooth(nd)), g=draw(C.smooth(nd)), key=key,
                k=draw(st.sampled_from([2., -4., 0.5, 1024.])), rel=draw(gen.logfl(1e-8, 1e-3)))


def t_together(c, ctx):
    """Components are independent: scaled and swapped copies agree exactly."""
    r, key = c['r'], c['key']
    kw = dict(key=key)
    F = lambda u: C.fval(c['f'], u)
    G = lambda u: C.fval(c['g'], u)
    try:
        a = call('array', 2, C.Fn(r, lambda u: [F(u), G(u)]), r, c['rel'], **kw)
        b = call('list', 2, C.Fn(r, lambda u: [G(u), F(u)]), r, c['rel'], **kw)
        d = call('fill', 3, C.Fn(r, lambda u: [F(u), c['k'] * F(u), G(u)]), r, c['rel'], **kw)
    except ValueError:
        ctx.event('gave_up')
        return
    for i in (0, 1):
        ctx.close(b[0][1 - i], a[0][i], 10 * c['rel'] + 1e-12, 0., 'swapped components')
    ctx.close(d[0][1], c['k'] * d[0][0], 1e-12, 0., 'scaled component')
    ctx.close(d[1][1], abs(c['k']) * d[1][0], 1e-6, 1e-13 * abs(c['k'] * d[0][0]), 'error of a scaled component')
    ctx.close(d[0][2], a[0][1], 10 * c['rel'] + 1e-12, 0., 'third component')
    ctx.nontrivial()


check = vh.Check('P17', [
    vh.Sub('smooth', smooth_case(), t_smooth, quick=1500, thorough=20000, shards=4, tshards=7,
           rule='the region was divided beyond the minimum, two or more components'),
    vh.Sub('polynomial', poly_case(), t_poly, quick=800, thorough=20000, shards=2, tshards=4, rule='all'),
    vh.Sub('together', together_case(), t_together, quick=200, thorough=4000, shards=2, rule='all'),
    vh.Sub('illegal', bad_case(), t_bad, quick=150, thorough=400, rule='all'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['2..6 dimensions, smooth separable integrands with nonzero integrals and polynomials',
                 'the true error may be 3 times the requested one'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
