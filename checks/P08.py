"""P08: on/off marginal likelihood equals the analytic series."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import numpy as np
from hypothesis import strategies as st
from scipy.special import gammaln, logsumexp


def logterms(s, n_on, t_on, n_off, t_off):
    k = np.arange(n_on + 1)
    lt = gammaln(n_on + n_off - k + 1.) - gammaln(n_on - k + 1.) \
        - gammaln(k + 1.) - s * t_on
    if s == 0.:
        lt = np.where(k == 0, lt, -np.inf)
    else:
        lt = lt + k * np.log(s * (t_on + t_off))
    return lt


def tol(n_on, n_off, s, t_on, t_off):
    # gammln is accurate to ~2e-10 (absolute, in the log); roundoff of the
    # large logs and of the recursion comes on top.
    big = (n_on + n_off + 2.) * np.log(n_on + n_off + 3.) + s * t_on \
        + n_on * abs(np.log(max(s, 1e-300) * (t_on + t_off)))
    return 5e-9 + 1e-14 * big + 1e-14 * n_on


@st.composite
def data(draw, nmax=3000, noff_min=0):
    return dict(n_on=draw(gen.skewint(0, nmax)),
                t_on=draw(gen.logfl(1e-3, 1e4)),
                n_off=draw(gen.skewint(noff_min, nmax)),
                t_off=draw(gen.logfl(1e-3, 1e4)))


@st.composite
def timed(draw, case):
    """The case in another unit of time."""
    c = draw(case)
    u = draw(gen.unit())
    if u != 1.:
        for d in [c] + c.get('ch', []):
            for k, f in (('t_on', u), ('t_off', u), ('s', 1. / u)):
                if k in d:
                    d[k] = [v * f for v in d[k]] if isinstance(d[k], list) else d[k] * f
    return c


@st.composite
def sigval(draw, d):
    """Signal rates near the peak, at zero, and far out."""
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return 0.
    shat = max(d['n_on'] / d['t_on'] - d['n_off'] / d['t_off'], 0.)
    wid = (np.sqrt(d['n_on'] + 1.) + 1.) / d['t_on']
    if kind == 1:
        return float(draw(gen.logfl(1e-6, 1e3)))
    if kind == 2:
        return float(draw(gen.logfl(1e-8, 1.)) * wid)
    s = float(abs(shat + draw(gen.fl(-6., 12.)) * wid))
    return s if s > 1e-200 else 0.      # k/s must not overflow


@st.composite
def many(draw, d):
    """A long array of rates around the peak (ascending, descending, or with repeated values)."""
    shat = max(d['n_on'] / d['t_on'] - d['n_off'] / d['t_off'], 0.)
    wid = (np.sqrt(d['n_on'] + 1.) + 1.) / d['t_on']
    m = draw(st.integers(6, 90))
    s = [max(float(v), 0.) for v in np.linspace(shat - draw(gen.fl(0., 5.)) * wid, shat + draw(gen.fl(1., 9.)) * wid, m)]
    return {'up': s, 'down': s[::-1], 'twice': s + s, 'mirror': s + s[::-1]}[draw(st.sampled_from(['up', 'down', 'twice', 'mirror']))]


cutoffs = st.one_of(st.just(0.), st.just(1e-5), gen.logfl(1e-12, 0.9))


@st.composite
def onoff_case(draw):
    d = draw(data())
    d['cut'] = draw(cutoffs)
    d['s'] = draw(st.lists(sigval(d), min_size=1, max_size=5))
    if d['n_on'] < 300 and draw(st.integers(0, 7)) == 7:
        d['s'] = draw(many(d))
    return d


def args(d):
    return d['n_on'], d['t_on'], d['n_off'], d['t_off']


def series_bounds(lt, cut):
    """Admissible (lo, hi) for the log of the truncated sum, and for nt."""
    mx = lt.max()
    if cut == 0.:
        full = logsumexp(lt)
        return full, full, None
    lcut = mx + np.log(cut)
    must = lt > lcut + 1e-3
    may = lt > lcut - 1e-3
    # one further term on each side may be included
    idx = np.nonzero(may)[0]
    lo_i, hi_i = max(idx[0] - 1, 0), min(idx[-1] + 1, len(lt) - 1)
    m = must.copy()
    m[int(np.argmax(lt))] = True
    lo = logsumexp(lt[m])
    hi = logsumexp(lt[lo_i:hi_i + 1])
    return lo, hi, (int(m.sum()), hi_i - lo_i + 1)


def t_siglml(d, ctx):
    from inference.count.onoff import OnOff, slml_offset, slmlike
    o = OnOff(d['n_on'], d['t_on'], d['n_off'], d['t_off'], d['cut'])
    ctx.close(o.offset, slml_offset(*args(d)), what='offset', rtol=1e-14, atol=1e-14)
    off = ctx.num(o.offset)
    vals, good = [], []
    for s in d['s']:
        lt = logterms(s, *args(d))
        lead = lt.max() - off
        t = tol(d['n_on'], d['n_off'], s, d['t_on'], d['t_off'])
        if s > 0. and abs(lead) > 700.5:
            ctx.event('out_of_range')
            ctx.raises(ValueError, lambda: o.siglml(s), 'siglml far from peak')
            ctx.raises(ValueError, lambda: o.siglml(np.array([s, s])),
                       'vector siglml far from peak')
            continue
        if s > 0. and abs(lead) > 699.5:
            continue
        lo, hi, nts = series_bounds(lt, d['cut'] if s > 0 else 0.)
        got = ctx.num(o.siglml(s), 'siglml(%r)' % s)
        ctx.check(lo - t <= got + off <= hi + t,
                  'siglml(%r)+offset = %.15g not in [%.15g, %.15g]',
                  s, got + off, lo, hi)
        sl, nt, ierr = slmlike(s, d['n_on'], d['t_on'], d['n_off'], d['t_off'],
                               off, d['cut'])
        ctx.equal(int(ierr), 0, 'slmlike error flag')
        ctx.close(sl, got, 1e-13, 1e-13, 'slmlike vs siglml')
        if nts is not None:
            ctx.check(nts[0] <= nt <= nts[1],
                      'nt = %s terms; expected %s..%s', nt, nts[0], nts[1])
        ctx.check(1 <= nt <= d['n_on'] + 1, 'nt = %s > n_on+1', nt)
        vals.append(got)
        good.append(s)
        if s == 0:
            ctx.event('s=0')
        if lt.argmax() not in (0, d['n_on']):
            ctx.event('interior_peak')
            ctx.nontrivial()
    if len(good) >= 2:
        v = o.siglml(np.array(good))
        ctx.allclose(v, vals, 1e-13, 1e-13, 'vector siglml vs scalar')
    # integer-valued rates in an integer array mean the same thing
    ints = [int(s) for s in good if s == int(s) and s < 2**30]
    if len(ints) >= 2:
        ctx.event('int_array')
        ctx.allclose(o.siglml(np.array(ints)), [o.siglml(float(i)) for i in ints],
                     1e-13, 1e-13, 'siglml of an integer array')
    ctx.raises(ValueError, lambda: o.siglml(np.array([[0., 1.], [1., 2.]])),
               '2-D argument')


@st.composite
def int_case(draw):
    d = draw(data(nmax=60))
    d['t_on'] = draw(gen.logfl(0.1, 10.))
    d['t_off'] = draw(gen.logfl(0.1, 10.))
    d['cut'] = draw(cutoffs)
    d['s'] = [float(i) for i in draw(st.lists(st.integers(0, 20), min_size=2, max_size=4))]
    return d


@st.composite
def peak_case(draw):
    d = draw(data(nmax=20000))
    d['cut'] = draw(cutoffs)
    d['z'] = draw(gen.fl(-3., 3.))
    return d


def t_offset_at_peak(d, ctx):
    """The offset depends only on the data and removes the scale: near the
    peak the scaled log likelihood is computed without under/overflow."""
    from inference.count.onoff import OnOff
    o = OnOff(d['n_on'], d['t_on'], d['n_off'], d['t_off'], d['cut'])
    shat = max(d['n_on'] / d['t_on'] - d['n_off'] / d['t_off'], 0.)
    sig = np.sqrt(d['n_on'] + 1.) / d['t_on']
    s = abs(shat + d['z'] * sig)
    lt = logterms(s, *args(d))
    t = tol(d['n_on'], d['n_off'], s, d['t_on'], d['t_off'])
    lo, hi, nts = series_bounds(lt, d['cut'] if s > 0 else 0.)
    got = ctx.num(o.siglml(s), 'siglml near the peak')
    ctx.check(lo - t <= got + o.offset <= hi + t,
              'siglml+offset = %.15g not in [%.15g, %.15g]', got + o.offset, lo, hi)
    lt0 = logterms(shat, *args(d))
    # (with or without its exp(-s*t_on) factor)
    ctx.check(-1e-3 - t <= o.offset - lt0.max() <= shat * d['t_on'] + 1e-3 + t,
              'offset %.15g is not the leading term %.15g at the estimated peak',
              o.offset, lt0.max())
    ctx.nontrivial(d['n_on'] > 20)


@st.composite
def vec_case(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 2, 3, 4, 5, 6, 17]))
    t_on, t_off = draw(gen.logfl(1e-2, 1e2)), draw(gen.logfl(1e-2, 1e2))
    ch = []
    for i in range(n):
        d = dict(n_on=draw(gen.skewint(0, 400)), n_off=draw(gen.skewint(0, 400)),
                 t_on=t_on, t_off=t_off)
        d['s'] = draw(sigval(d))
        ch.append(d)
    return dict(t_on=t_on, t_off=t_off, cut=draw(cutoffs), ch=ch)


def t_vector_channels(c, ctx):
    from inference.count import onoff
    ch = c['ch']
    n_on = [d['n_on'] for d in ch]
    n_off = [d['n_off'] for d in ch]
    offs = ctx.arr(onoff.vslml_offset(n_on, c['t_on'], n_off, c['t_off']),
                   (len(ch),), 'vslml_offset')
    for i, d in enumerate(ch):
        ctx.close(offs[i], onoff.slml_offset(*args(d)), 1e-14, 1e-14,
                  'vslml_offset[%d]' % i)
    keep = [i for i, d in enumerate(ch)
            if d['s'] == 0. or abs(logterms(d['s'], *args(d)).max() - offs[i]) < 699.]
    if not keep:
        return
    ch = [ch[i] for i in keep]
    offs = offs[keep]
    v = ctx.arr(onoff.vslmlike([d['s'] for d in ch], [d['n_on'] for d in ch], c['t_on'],
                               [d['n_off'] for d in ch], c['t_off'], offs, c['cut']),
                (len(ch),), 'vslmlike')
    for i, d in enumerate(ch):
        s = d['s']
        sl, nt, ierr = onoff.slmlike(s, d['n_on'], d['t_on'], d['n_off'],
                                     d['t_off'], offs[i], c['cut'])
        ctx.close(v[i], sl, 1e-13, 1e-13, 'vslmlike[%d]' % i)
        lo, hi, _ = series_bounds(logterms(s, *args(d)), c['cut'] if s > 0 else 0.)
        t = tol(d['n_on'], d['n_off'], s, d['t_on'], d['t_off'])
        ctx.check(lo - t <= v[i] + offs[i] <= hi + t, 'vslmlike[%d] value', i)
    ctx.nontrivial(len(ch) >= 2)


@st.composite
def deriv_case(draw):
    d = draw(data(nmax=1500, noff_min=1))
    d['cut'] = draw(cutoffs)
    d['s'] = draw(sigval(d))
    d['shift'] = draw(gen.fl(-5., 5.))
    return d


def t_derivative(d, ctx):
    from inference.count import onoff
    s = d['s']
    a = args(d)
    off = ctx.num(onoff.slml_offset(*a))
    lt = logterms(s, *a)
    if s > 0. and abs(lt.max() - off) + abs(d['shift']) > 699.:
        return
    sll, dsll, nt, ierr = onoff.slmliked(s, *(a + (off, d['cut'])))
    ctx.equal(int(ierr), 0, 'slmliked error flag')
    l1, nt1, ierr1 = onoff.slmlike(s, *(a + (off, d['cut'])))
    ctx.close(sll, l1, 1e-12, 1e-12, 'slmliked value vs slmlike')
    ctx.equal(int(nt), int(nt1), 'slmliked nt vs slmlike nt')
    # the offset only shifts the log likelihood
    l2, nt2, _ = onoff.slmlike(s, *(a + (off + d['shift'], d['cut'])))
    ctx.close(l2, l1 - d['shift'], 1e-11, 1e-11 + 1e-15 * abs(off), 'offset shift')
    # exact derivative of the log of the series
    k = np.arange(d['n_on'] + 1)
    if s == 0.:
        want = d['t_on'] * ((1. + d['t_off'] / d['t_on']) * d['n_on']
                            / (d['n_on'] + d['n_off']) - 1.)
        scale = abs(want) + d['t_on']
        trunc = 0.
    else:
        w = np.exp(lt - logsumexp(lt))
        want = float(np.sum(w * (k / s - d['t_on'])))
        scale = float(np.sum(w * np.abs(k / s - d['t_on']))) + d['t_on']
        # truncation: the omitted terms are below cut * leading term
        inc = lt > lt.max() + (np.log(d['cut']) if d['cut'] > 0 else -np.inf)
        trunc = 1.1 * float(np.sum(w[~inc] * np.abs(k[~inc] / s - d['t_on'])) +
                            np.sum(w[~inc]) * scale) if d['cut'] > 0 else 0.
    ctx.check(abs(ctx.num(dsll, 'derivative') - want) <= trunc + 5e-9 * scale,
              'derivative %.15g, expected %.15g (s=%r, tol %.3g)', dsll, want, s,
              trunc + 5e-9 * scale)
    ctx.nontrivial(s > 0. and d['n_on'] > 1)


check = vh.Check('P08', [
    vh.Sub('siglml', timed(onoff_case()), t_siglml, quick=1200, thorough=40000, shards=2,
           rule='leading series term strictly inside (neither k=0 nor k=n_on)'),
    vh.Sub('siglml_ints', int_case(), t_siglml, quick=300, thorough=5000,
           rule='as siglml'),
    vh.Sub('offset_peak', timed(peak_case()), t_offset_at_peak, quick=500, thorough=8000,
           rule='more than 20 on-source counts'),
    vh.Sub('vector', timed(vec_case()), t_vector_channels, quick=400, thorough=10000,
           rule='at least two channels'),
    vh.Sub('derivative', timed(deriv_case()), t_derivative, quick=700, thorough=20000,
           rule='s>0 and n_on>1'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['counts 0..20000, intervals 1e-3..1e4 (in units of 2^-70 to 2^60), s >= 0, cutoff in [0, 0.9]',
                 'gammln is accurate to a few 1e-10 (its documented accuracy)',
                 'slmliked is checked for n_off >= 1 (n_off = 0 documented as NaN)'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
