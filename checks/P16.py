"""P16: adaptive cubature of a scalar function (adapt)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import cublib as C
import numpy as np
from hypothesis import strategies as st


def rulcls(nd):
    return 2 ** nd + 2 * nd ** 2 + 6 * nd + 1


def call(f, r, relacc, **kw):
    from inference.integrate.adapt import adapt
    lo, hi = np.array(r['lo']), np.array(r['hi'])
    try:
        return adapt(lambda x: f(x), lo, hi, relacc, **kw)
    finally:
        if not ((lo == r['lo']).all() and (hi == r['hi']).all()):
            raise vh.Violation('the bounds were altered')


def common(ctx, f, out, relacc, maxpts):
    ctx.check(type(out) is tuple and len(out) == 3, 'adapt returned %r', out)
    res, err, npts = out
    ctx.num(res, 'result')
    ctx.check(0 <= err < relacc, 'estimated error %r not below the requested %r', err, relacc)
    ctx.check(f.out is None, 'evaluated outside the region: %r', f.out)
    # the routine's own count leaves out one evaluation per subregion
    ctx.check(0.94 * f.n <= npts <= f.n, '%d evaluations reported, %d made', npts, f.n)
    ctx.check(npts <= maxpts + 4 * rulcls(len(f.lo)), '%d evaluations exceed the maximum %d', npts, maxpts)


@st.composite
def smooth_case(draw):
    nd = draw(st.sampled_from([2, 2, 3, 3, 4, 5, 6]))
    return dict(r=draw(C.region(nd)), f=draw(C.smooth(nd)), relacc=draw(gen.logfl(1e-8, 1e-2)),
                maxfac=draw(st.sampled_from([None, 100, 200, 400])), seq=draw(st.booleans()),
                fail=draw(st.one_of(st.none(), st.none(), st.integers(1, 40))))


def t_smooth(c, ctx):
    r = c['r']
    nd = len(r['lo'])
    f = C.Fn(r, lambda u: float(C.fval(c['f'], u)))
    kw = {} if c['maxfac'] is None else dict(maxfac=c['maxfac'])
    maxpts = (c['maxfac'] or 100) * rulcls(nd)
    vol = float(np.prod(np.array(r['hi']) - np.array(r['lo'])))
    want = vol * float(C.finteg(c['f']))
    try:
        out = call(f, r, c['relacc'], **kw)
    except RuntimeError as e:
        ctx.check('maxfac' in str(e) or 'wrkfac' in str(e), 'unexpected RuntimeError %s', e)
        # only when the effort was really spent
        ctx.check(f.n > 0.2 * maxpts, 'gave up after %d of %d evaluations', f.n, maxpts)
        ctx.event('gave_up')
        return
    common(ctx, f, out, c['relacc'], maxpts)
    # Estimates of the error are heuristic: allow a factor
    ctx.close(out[0], want, min(max(100 * c['relacc'], 1e-5), 1e-3), 0., 'integral of a smooth function')
    if c['fail'] is not None:
        g = C.Fn(r, lambda u: float(C.fval(c['f'], u)))
        g.fail_at = c['fail']
        try:
            call(g, r, c['relacc'], **kw)
            ctx.check(g.n < c['fail'], 'an exception of the integrand was swallowed')
        except KeyError:
            ctx.event('injected')
    ctx.event('nd=%d' % nd)
    ctx.event('one_region' if f.n < 2 * rulcls(nd) else 'several_regions')
    ctx.nontrivial(f.n > 2 * rulcls(nd))


@st.composite
def poly_case(draw):
    nd = draw(st.sampled_from([2, 2, 3, 3, 4, 5]))
    return dict(r=draw(C.region(nd)), t=draw(C.poly(nd, draw(st.sampled_from([1, 3, 5, 6, 7, 7, 7])))),
                relacc=draw(gen.logfl(1e-6, 1e-1)), scale=draw(gen.sgnfl(1e-6, 1e6)))


def t_poly(c, ctx):
    """Degree <= 7 is integrated exactly by the basic rule."""
    r = c['r']
    nd = len(r['lo'])
    f = C.Fn(r, lambda v: c['scale'] * float(C.pval(c['t'], v)), unit=False)
    vol = float(np.prod(np.array(r['hi']) - np.array(r['lo'])))
    mean = C.pinteg(c['t'])
    size = sum(abs(a) for e, a in c['t'])
    if abs(mean) < 0.05 * size:
        return
    try:
        out = call(f, r, c['relacc'])
    except RuntimeError:
        ctx.check(f.n > 0.2 * 100 * rulcls(nd), 'gave up after %d evaluations', f.n)
        ctx.event('gave_up')
        return
    common(ctx, f, out, c['relacc'], 100 * rulcls(nd))
    ctx.close(out[0], vol * c['scale'] * mean, 0., 1e-9 * abs(vol * c['scale']) * size,
              'integral of a polynomial of degree <= 7')
    ctx.nontrivial(max(sum(e) for e, a in c['t']) >= 6)
    ctx.event('nd=%d' % nd)


@st.composite
def effort_case(draw):
    nd = draw(st.sampled_from([2, 3, 4]))
    return dict(nd=nd, m=draw(st.lists(gen.fl(0.1, 0.9), min_size=nd, max_size=nd)),
                s=draw(gen.fl(0.06, 0.4)), relacc=draw(gen.logfl(1e-13, 1e-3)),
                fac=draw(st.sampled_from([1, 2, 3, 5, 20])), big=draw(st.sampled_from([60, 150, 300, 300, 1200 if nd < 4 else 300, 4000 if nd == 2 else 300])),
                wrk=draw(st.sampled_from([1, 2, 5])))


def t_effort(c, ctx):
    """maxfac limits the effort; a larger maxfac is made use of."""
    nd = c['nd']
    r = dict(lo=[0.] * nd, hi=[1.] * nd)
    ff = dict(fac=[['gauss', m, c['s']] for m in c['m']], amp=1.)
    outs = []
    for fac in (c['fac'], c['big']):
        f = C.Fn(r, lambda u: float(C.fval(ff, u)))
        maxpts = fac * rulcls(nd)
        try:
            out = call(f, r, c['relacc'], maxfac=fac, wrkfac=c['wrk'])
            common(ctx, f, out, c['relacc'], maxpts)
            outs.append((out, f.n))
        except RuntimeError as e:
            outs.append((None, f.n, 'maxfac' in str(e)))
        ctx.check(f.n <= 1.06 * maxpts + 4 * rulcls(nd), '%d evaluations with maxfac=%d', f.n, fac)
    if outs[1][0] is None:
        ctx.check(outs[1][1] > ((.9 if c['big'] > 1000 else .5) if outs[1][2] else .2) * c['big'] * rulcls(nd), 'gave up after %d evaluations with maxfac=%d',
                  outs[1][1], c['big'])
    ctx.nontrivial(outs[0][0] is None)
    ctx.event('small_ok' if outs[0][0] else 'small_fails')
    ctx.event('big_ok' if outs[1][0] else 'big_fails')


@st.composite
def bad_case(draw):
    return dict(nd=draw(st.sampled_from([1, 21, 25])))


def t_bad(c, ctx):
    r = dict(lo=[0.] * c['nd'], hi=[1.] * c['nd'])
    f = C.Fn(r, lambda u: 1.)
    try:
        out = call(f, r, 1e-3, maxfac=1)
        ctx.fail('dimension %d was accepted: %r' % (c['nd'], out))
    except (ValueError, RuntimeError, MemoryError):
        ctx.nontrivial()


check = vh.Check('P16', [
    vh.Sub('smooth', smooth_case(), t_smooth, quick=2500, thorough=40000, shards=3, tshards=5,
           rule='more than one subregion was needed'),
    vh.Sub('polynomial', poly_case(), t_poly, quick=2000, thorough=40000, shards=2, tshards=4,
           rule='degree 6 or 7 terms'),
    vh.Sub('effort', effort_case(), t_effort, quick=240, thorough=6000, shards=3, tshards=4,
           rule='the smaller maxfac did not suffice'),
    vh.Sub('illegal', bad_case(), t_bad, quick=3, thorough=3, rule='all'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['2..6 dimensions, integrands separable and smooth over the region, nonzero integrals',
                 'error estimates are heuristic: the true error may be 100 times the requested one, or 1e-5, but at most 1e-3'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
