"""P09: signal-count probabilities and the signal posterior density."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import numpy as np
from hypothesis import strategies as st
from scipy.special import gammaln, logsumexp


def ref_logc(n_on, t_on, n_off, t_off):
    i = np.arange(n_on + 1)
    lc = i * np.log1p(t_off / t_on) + gammaln(n_on + n_off - i + 1.) \
        - gammaln(n_on - i + 1.)
    return lc - logsumexp(lc)


def ref_pdf(s, d):
    lc = ref_logc(*args(d))
    i = np.arange(d['n_on'] + 1)
    st_ = s * d['t_on']
    if st_ == 0.:
        return d['t_on'] * np.exp(lc[0])
    return d['t_on'] * np.exp(logsumexp(lc + i * np.log(st_) - st_ - gammaln(i + 1.)))


def args(d):
    return d['n_on'], d['t_on'], d['n_off'], d['t_off']


@st.composite
def data(draw, nmax=2000):
    u = draw(gen.unit())
    return dict(n_on=draw(gen.skewint(0, nmax)),
                t_on=draw(gen.logfl(1e-3, 1e4)) * u,
                n_off=draw(gen.skewint(0, nmax)),
                t_off=draw(gen.logfl(1e-3, 1e4)) * u)


@st.composite
def svals(draw, d):
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return 0.
    if kind == 1:
        return float(draw(gen.logfl(1e-3, 1e13)) / d['t_on'])
    shat = max(d['n_on'] / d['t_on'] - d['n_off'] / d['t_off'], 0.)
    wid = (np.sqrt(d['n_on'] + 1.) + 1.) / d['t_on']
    s = float(abs(shat + draw(gen.fl(-6., 10.)) * wid))
    return s if s > 1e-200 else 0.


@st.composite
def many(draw, d):
    """A long array of rates around the peak (ascending, descending, or with repeated values)."""
    shat = max(d['n_on'] / d['t_on'] - d['n_off'] / d['t_off'], 0.)
    wid = (np.sqrt(d['n_on'] + 1.) + 1.) / d['t_on']
    m = draw(st.integers(6, 90))
    s = [max(float(v), 0.) for v in np.linspace(shat - draw(gen.fl(0., 5.)) * wid, shat + draw(gen.fl(1., 9.)) * wid, m)]
    return {'up': s, 'down': s[::-1], 'twice': s + s, 'mirror': s + s[::-1]}[draw(st.sampled_from(['up', 'down', 'twice', 'mirror']))]


def check_c(ctx, c, d, what):
    lc = ref_logc(*args(d))
    c = ctx.arr(c, (d['n_on'] + 1,), what)
    ctx.check((c >= 0).all(), '%s has negative entries', what)
    ctx.close(c.sum(), 1., 1e-10, what=what + ' sum')
    # probabilities below 1e-250 may underflow in the recursion
    ctx.allclose(c, np.exp(lc), rtol=1e-9 + 1e-12 * d['n_on'], atol=1e-250, what=what)


def t_sigctp(d, ctx):
    from inference.count.onoff import sigctp, OnOff
    check_c(ctx, sigctp(*args(d)), d, 'sigctp')
    o = OnOff(*args(d))
    check_c(ctx, o.pnsig(), d, 'pnsig()')
    ctx.nontrivial(d['n_on'] >= 2)
    if d['n_off'] == 0:
        ctx.event('n_off=0')
    if d['n_on'] / d['t_on'] < d['n_off'] / d['t_off']:
        ctx.event('deficit')


@st.composite
def history(draw):
    ds = draw(st.lists(data(nmax=150), min_size=1, max_size=3))
    ops = []
    for _ in range(draw(st.one_of(st.integers(1, 10), st.integers(1, 10), st.integers(10, 30)))):
        k = draw(st.integers(0, len(ds) - 1))
        d = ds[k]
        op = draw(st.sampled_from(['pnsig', 'pn', 'sigmp', 'sigmp', 'vsigmp', 'scribble', 'bad', 'siglml']))
        if op == 'pn':
            a = draw(st.one_of(st.just(0), st.integers(0, d['n_on'])))
        elif op in ('sigmp', 'siglml'):
            a = draw(svals(d))
        elif op == 'vsigmp':
            a = draw(st.lists(svals(d), min_size=2, max_size=4)) if draw(st.integers(0, 3)) else draw(many(d))
        elif op == 'bad':
            a = draw(st.sampled_from([-1, d['n_on'] + 1, d['n_on'] + 7]))
        else:
            a = None
        ops.append([op, k, a])
    return dict(ds=ds, ops=ops)


def pdf_close(ctx, got, s, d, what):
    want = ref_pdf(s, d)
    # relative 1e-8: gammln (a few 1e-10) and roundoff in n*log(st)-st
    st_ = s * d['t_on']
    ctx.close(got, want, 1e-8 + 1e-14 * (st_ + d['n_on'] * 30.) , 1e-200, what)


def t_history(c, ctx):
    """Any interleaving of queries on several objects gives the same answers
    as each query on its own (no leakage through caches or saved tables)."""
    from inference.count.onoff import OnOff
    ds = c['ds']
    objs = [OnOff(*args(d)) for d in ds]
    for op, k, a in c['ops']:
        o, d = objs[k], ds[k]
        if op == 'pnsig':
            check_c(ctx, o.pnsig(), d, 'pnsig()')
        elif op == 'pn':
            ctx.close(o.pnsig(a), np.exp(ref_logc(*args(d))[a]), 1e-9, 1e-250,
                      'pnsig(%d)' % a)
        elif op == 'sigmp':
            pdf_close(ctx, o.sigmp(a), a, d, 'sigmp(%r)' % a)
        elif op == 'vsigmp':
            v = ctx.arr(o.sigmp(np.array(a)), (len(a),), 'sigmp array')
            for s, x in zip(a, v):
                pdf_close(ctx, x, s, d, 'sigmp array at %r' % s)
        elif op == 'scribble':
            p = o.pnsig()
            p[:] = -3.
        elif op == 'bad':
            ctx.raises(ValueError, lambda: o.pnsig(a), 'pnsig(%d)' % a)
        elif op == 'siglml':
            try:
                o.siglml(a)
            except ValueError:
                pass
        ctx.event(op)
    ctx.nontrivial(len(c['ops']) >= 3)


@st.composite
def int_case(draw):
    d = draw(data(nmax=40))
    d['t_on'] = draw(gen.logfl(0.1, 10.))
    d['s'] = draw(st.lists(st.integers(0, 30), min_size=2, max_size=5))
    return d


def t_int(d, ctx):
    from inference.count.onoff import OnOff
    o = OnOff(*args(d))
    v = ctx.arr(o.sigmp(np.array(d['s'])), (len(d['s']),), 'sigmp(int array)')
    for s, x in zip(d['s'], v):
        pdf_close(ctx, x, float(s), d, 'sigmp(int array) at %d' % s)
    ctx.nontrivial()


@st.composite
def norm_case(draw):
    d = draw(data(nmax=400))
    return d


def t_norm(d, ctx):
    """The posterior density integrates to one, has its analytic mean, and is
    proportional to the exponential of the (uncut) marginal likelihood."""
    from inference.count.onoff import OnOff
    o = OnOff(*(args(d) + (0.,)))
    # sigmp is a mixture of Gamma(i+1) densities in s*t_on: integrate it with
    # Gauss-Legendre panels over the range holding all of the mass.
    top = (d['n_on'] + 1. + 12. * np.sqrt(d['n_on'] + 1.) + 40.) / d['t_on']
    npan = int(40 + d['n_on'] / 4.)
    x, w = np.polynomial.legendre.leggauss(12)
    h = top / npan
    s = ((np.arange(npan)[:, None] + 0.5) + 0.5 * x[None, :]).ravel() * h
    ww = np.tile(0.5 * h * w, npan)
    v = ctx.arr(o.sigmp(s), s.shape, 'sigmp grid')
    ctx.check((v >= 0).all(), 'sigmp is negative')
    ctx.close((v * ww).sum(), 1., 1e-7, what='integral of sigmp')
    mean = np.sum(np.exp(ref_logc(*args(d))) * (np.arange(d['n_on'] + 1) + 1.)) / d['t_on']
    ctx.close((v * ww * s).sum(), mean, 1e-7, what='posterior mean of the signal')
    i0 = int(np.argmax(v))
    for j in (0, len(s) // 3, i0, min(i0 + 7, len(s) - 1)):
        if v[j] > 1e-250 and v[i0] > 0.:
            dl = o.siglml(s[j]) - o.siglml(s[i0])
            ctx.close(np.log(v[j]) - np.log(v[i0]), dl, 1e-8, 1e-8,
                      'log sigmp ratio vs siglml difference')
    ctx.nontrivial(d['n_on'] >= 1)


check = vh.Check('P09', [
    vh.Sub('sigctp', data(nmax=5000), t_sigctp, quick=1500, thorough=40000,
           rule='n_on >= 2'),
    vh.Sub('history', history(), t_history, quick=2500, thorough=60000, shards=2,
           rule='at least three operations on up to three objects'),
    vh.Sub('int_rates', int_case(), t_int, quick=200, thorough=4000, rule='all'),
    vh.Sub('posterior', norm_case(), t_norm, quick=150, thorough=4000,
           rule='n_on >= 1'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['counts 0..5000, intervals 1e-3..1e4 (in units of 2^-70 to 2^60), s >= 0',
                 'probabilities below 1e-250 may underflow to 0',
                 'gammln accurate to a few 1e-10'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
