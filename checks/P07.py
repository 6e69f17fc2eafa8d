"""P07: observed information and log-likelihood step sizes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import numpy as np
from hypothesis import strategies as st


@st.composite
def model(draw, nmax=5, quartic=True):
    """f(x) = c - 1/2 d'Ad + cubic + quartic terms along random directions,
    d = x - mu; A is positive definite with scales sig."""
    n = draw(st.integers(1, nmax))
    if draw(st.integers(0, 19)) == 19:
        n = draw(st.integers(nmax, 12))
    mu = draw(st.lists(gen.fl(-50., 50.), min_size=n, max_size=n))
    sig = draw(st.lists(gen.logfl(1e-2, 1e2), min_size=n, max_size=n))
    for i in range(n):      # parameters in other units
        u = draw(st.sampled_from([1., 1., 1., 1., 1., 1e-20, 1e-28, 1e12, 1e25]))
        mu[i] *= u
        sig[i] *= u
    # correlation through a random lower-triangular factor, in sig units
    L = [[draw(gen.fl(-0.8, 0.8)) if j < i else 1. for j in range(i + 1)]
         for i in range(n)]
    terms = []
    if quartic:
        for _ in range(draw(st.integers(0, 3))):
            v = draw(st.lists(gen.fl(-1., 1.), min_size=n, max_size=n))
            terms.append([draw(st.sampled_from([3, 4])), draw(gen.fl(-0.1, 0.1)), v])
    return dict(n=n, mu=mu, sig=sig, L=L, terms=terms,
                c=draw(st.one_of(st.just(0.), gen.fl(-1e4, 1e4))))


class Fn(object):
    def __init__(self, m, limit=100000):
        n = m['n']
        L = np.zeros((n, n))
        for i, row in enumerate(m['L']):
            L[i, :i + 1] = row
        B = L.dot(L.T)                       # SPD, in scaled units
        s = np.array(m['sig'])
        self.A = B / s[:, None] / s[None, :]
        self.B, self.s = B, s
        self.mu = np.array(m['mu'])
        self.c = m['c']
        self.terms = m['terms']
        self.n = 0
        self.limit = limit
        self.maxabs = abs(self.c) + 1.
        self.fail_at = None

    def value(self, x):
        d = (np.array(x, dtype=float) - self.mu) / self.s
        v = self.c - 0.5 * d.dot(self.B).dot(d)
        for p, a, u in self.terms:
            v += a * np.dot(u, d) ** p
        return float(v)

    def __call__(self, x):
        self.n += 1
        if self.n > self.limit:
            raise vh.CaseBudget('loglike called more than %d times' % self.limit)
        if self.fail_at is not None and self.n == self.fail_at:
            raise KeyError('injected')
        v = self.value(x)
        self.maxabs = max(self.maxabs, abs(v))
        return v


@st.composite
def info_case(draw):
    m = draw(model())
    return dict(m=m, niter=draw(st.integers(0, 5)),
                fac=draw(st.lists(st.builds(lambda a, b: a * b, st.sampled_from([-1., 1.]),
                                            gen.fl(0.2, 1.5)),
                                  min_size=m['n'], max_size=m['n'])),
                give_max=draw(st.booleans()), fail_at=draw(st.one_of(st.none(), st.integers(1, 40))),
                as_list=draw(st.booleans()))


def t_info(c, ctx):
    from inference.deriv import obsinfo
    m, niter = c['m'], c['niter']
    f = Fn(m)
    n = m['n']
    mle = np.array(m['mu'])
    deltas = f.s * np.array(c['fac']) / np.sqrt(np.diag(f.B))
    mle_in = list(mle) if c['as_list'] else mle.copy()
    d_in = deltas.copy()
    kw = dict(niter=niter)
    if c['give_max']:
        kw['maxll'] = f.value(mle)
    # quadratic sizes: the diagonal second differences must stay negative
    # definite for the off-diagonal scales to exist
    r = obsinfo(lambda x: f(x), mle_in, d_in, **kw)
    ctx.check(isinstance(r, tuple) and len(r) == 2, 'obsinfo returns (info, err)')
    ctx.check(np.array_equal(np.array(mle_in), mle), 'mle was modified')
    ctx.check(np.array_equal(d_in, deltas), 'deltas were modified')
    if c['fail_at'] is not None:
        # an exception from loglike propagates and leaves the inputs alone
        f2 = Fn(m)
        f2.fail_at = c['fail_at']
        try:
            obsinfo(lambda x: f2(x), mle_in, d_in, **kw)
            ctx.check(f2.n < c['fail_at'], 'exception from loglike was swallowed')
        except KeyError:
            ctx.event('injected')
        ctx.check(np.array_equal(np.array(mle_in), mle), 'mle modified by a failed call')
        ctx.check(np.array_equal(d_in, deltas), 'deltas modified by a failed call')
    # ---- reference diagonal second differences
    diag2 = np.zeros(n)
    f0 = f.value(mle)
    for i in range(n):
        e = np.zeros(n)
        e[i] = deltas[i]
        diag2[i] = -(f.value(mle + e) + f.value(mle - e) - 2 * f0) / deltas[i] ** 2
    D = np.sqrt(np.diag(f.A))
    # cancellation: eps * |f| / h^2 at the smallest step (and of the abscissas)
    hmin = np.abs(deltas) * 0.707 ** niter
    xerr = 4e-16 * (np.abs(mle) + np.abs(deltas)) / np.abs(deltas)
    noise = 4e-16 * f.maxabs * 20. / (hmin * D) ** 2 + 50. * xerr.max() * 2. ** (niter / 2.) * 4.
    nse = float(noise.max())
    if niter == 0:
        info, err = ctx.arr(r[0], (n, n), 'info'), ctx.arr(r[1], (n, n), 'err')
        ctx.allclose(np.diag(info), diag2, 0., (1e-9 + nse) * D.max() ** 2, 'second differences')
        for i in range(n):
            ctx.check(abs(info[i, i] - diag2[i]) <= (1e-9 + nse) * D[i] ** 2,
                      'niter=0 diagonal %d: %.12g vs second difference %.12g',
                      i, info[i, i], diag2[i])
        ctx.check((err == 0).all(), 'niter=0 must report zero errors')
        ref = np.diag(diag2)
        for i in range(n):
            for j in range(i + 1, n):
                if diag2[i] <= 0 or diag2[j] <= 0:
                    continue
                s1, s2 = diag2[i] ** -0.5, diag2[j] ** -0.5
                e = np.zeros(n)
                e[i], e[j] = s1, s2
                d2 = f.value(mle + e) + f.value(mle - e) - 2 * f0
                want = -0.5 * (d2 + 2.) / (s1 * s2)
                ctx.check(abs(info[i, j] - want) <= (1e-8 + 4 * nse) / (s1 * s2) * 3.,
                          'niter=0 off-diagonal: %.12g vs %.12g', info[i, j], want)
        ctx.event('niter0')
    else:
        info, err = ctx.arr(r[0], (n, n), 'info'), ctx.arr(r[1], (n, n), 'err')
        # quartic polynomials are extrapolated exactly with one or more steps
        t = 1e-8 + 3. * nse
        for i in range(n):
            for j in range(n):
                ctx.check(abs(info[i, j] - f.A[i, j]) <= t * D[i] * D[j] * 4.,
                          'info[%d,%d] = %.12g, Hessian %.12g (niter=%d)',
                          i, j, info[i, j], f.A[i, j], niter)
        ctx.check((err >= 0).all(), 'negative error estimate')
        if niter >= 2 or not m['terms']:
            for i in range(n):
                for j in range(n):
                    ctx.check(err[i, j] <= (t * 10. + (1. if m['terms'] else 0.)) * D[i] * D[j] * 4,
                              'err[%d,%d] = %g is far too large', i, j, err[i, j])
        if niter == 1:
            # one Richardson step: the error estimate is the larger of the
            # changes from the two second differences it combines
            for i in range(n):
                e = np.zeros(n)
                e[i] = deltas[i] / np.sqrt(2.)
                b = -(f.value(mle + e) + f.value(mle - e) - 2 * f0) / e[i] ** 2
                ex = 2. * b - diag2[i]
                want = max(abs(ex - b), abs(ex - diag2[i]))
                ctx.check(abs(err[i, i] - want) <= 0.05 * want + 2. * t * D[i] ** 2,
                          'err[%d,%d] = %g, expected about %g', i, i, err[i, i], want)
            ctx.event('err_est')
        ctx.event('extrapolated')
    ctx.check(np.array_equal(info, info.T), 'info is not symmetric')
    ctx.check(np.array_equal(err, err.T), 'err is not symmetric')
    ctx.nontrivial(n >= 2 and nse < 1e-4)
    if n >= 2 and m['terms'] and nse < 1e-6:
        ctx.event('quartic_nd')


# ---- smooth, non-polynomial: Poisson log likelihood in transformed rates
@st.composite
def poisson_case(draw):
    n = draw(st.integers(1, 4))
    return dict(n=n, cts=draw(st.lists(st.integers(30, 5000), min_size=n, max_size=n)),
                expo=draw(st.lists(st.one_of(gen.logfl(0.1, 10.), gen.logfl(1e-20, 1e20)), min_size=n, max_size=n)),
                niter=draw(st.integers(2, 4)), dll=draw(gen.fl(0.3, 1.0)),
                gfac=draw(gen.logfl(0.3, 3.)))


def t_poisson(c, ctx):
    from inference.deriv import dllsteps, obsinfo
    cts, T = np.array(c['cts'], float), np.array(c['expo'])
    mle = cts / T
    n = c['n']
    cnt = [0]

    def ll(r):
        cnt[0] += 1
        if cnt[0] > 100000:
            raise vh.CaseBudget('too many loglike calls')
        return float(np.sum(cts * np.log(r * T) - r * T))
    sc = np.sqrt(cts) / T
    mx = ll(mle)
    d = ctx.arr(dllsteps(ll, mle.copy(), sc * c['gfac'], c['dll']), (n,), 'deltas')
    for i in range(n):
        x = mle.copy()
        x[i] += d[i]
        ctx.check(abs(ll(x) - (mx - c['dll'])) <= 0.01 + 1e-8,
                  'step %d changes loglike by %.10g, wanted %.10g +- 0.01', i,
                  mx - ll(x), c['dll'])
        ctx.check(d[i] > 0, 'step has the wrong sign')
    info, err = obsinfo(ll, mle.copy(), d, niter=c['niter'])
    H = np.diag(cts / mle ** 2)
    D = np.sqrt(np.diag(H))
    info = ctx.arr(info, (n, n), 'info')
    for i in range(n):
        for j in range(n):
            ctx.check(abs(info[i, j] - H[i, j]) <= 2e-4 * D[i] * D[j],
                      'info[%d,%d]=%.10g, analytic %.10g', i, j, info[i, j], H[i, j])
    ctx.nontrivial(n >= 2)


# ---- dllsteps
@st.composite
def steps_case(draw):
    m = draw(model())
    for t in m['terms']:
        # a genuine maximum: no positive quartic, small cubic terms
        t[1] = -abs(t[1]) * 0.3 if t[0] == 4 else t[1] * 0.1
    return dict(m=m, dll=draw(gen.logfl(0.1, 20.)) if not m['terms'] else draw(gen.fl(0.2, 1.5)),
                tol=draw(st.sampled_from([0.01, 0.01, 1e-3, 1e-4])),
                g=draw(st.lists(st.builds(lambda a, b: a * b, st.sampled_from([-1., 1.]),
                                          gen.logfl(0.05, 20.) if not m['terms'] else gen.logfl(0.5, 2.)),
                                min_size=m['n'], max_size=m['n'])),
                give_max=draw(st.booleans()), as_list=draw(st.booleans()),
                fail_at=draw(st.one_of(st.none(), st.integers(1, 25))))


def t_steps(c, ctx):
    from inference.deriv import dllsteps
    m = c['m']
    f = Fn(m)
    n = m['n']
    mle = np.array(m['mu'])
    scale = f.s / np.sqrt(np.diag(f.B))
    g = scale * np.array(c['g'])
    mle_in = list(mle) if c['as_list'] else mle.copy()
    g_in = g.copy()
    kw = {}
    if c['give_max']:
        kw['maxll'] = f.value(mle)
    d = ctx.arr(dllsteps(lambda x: f(x), mle_in, g_in, c['dll'], tol=c['tol'], **kw), (n,), 'deltas')
    ctx.check(np.array_equal(np.array(mle_in), mle), 'mle was modified')
    ctx.check(np.array_equal(g_in, g), 'guess was modified')
    f0 = f.value(mle)
    for i in range(n):
        x = mle.copy()
        x[i] += d[i]
        ctx.check(abs(f.value(x) - (f0 - c['dll'])) <= c['tol'] + 1e-12 * f.maxabs + 1e-9,
                  'step %d: loglike drop %.10g, wanted %.10g +- %g', i,
                  f0 - f.value(x), c['dll'], c['tol'])
        ctx.check(d[i] * g[i] > 0, 'step %d has the wrong sign', i)
    if not m['terms']:
        ctx.allclose(np.abs(d), scale * np.sqrt(2 * c['dll']), 0.6 * c['tol'] / c['dll'] + 1e-4,
                     what='quadratic scales')
        ctx.event('quadratic')
        dd = ctx.arr(dllsteps(lambda x: f(x), mle.copy(), g.copy()), (n,), 'deltas by default')
        ctx.allclose(np.abs(dd), scale * np.sqrt(2.), 7e-3, what='steps for the default change of log likelihood, 1')
    ctx.nontrivial(n >= 2)
    if c['fail_at'] is not None:
        # an exception from loglike propagates and leaves the inputs alone
        f2 = Fn(m)
        f2.fail_at = c['fail_at']
        try:
            dllsteps(lambda x: f2(x), mle_in, g_in, c['dll'], tol=c['tol'], **kw)
            ctx.check(f2.n < c['fail_at'], 'exception from loglike was swallowed')
        except KeyError:
            ctx.event('injected')
        ctx.check(np.array_equal(np.array(mle_in), mle), 'mle modified by a failed call')
        ctx.check(np.array_equal(g_in, g), 'guess modified by a failed call')


# ---- failures are reported
@st.composite
def bad_case(draw):
    m = draw(model(quartic=False))
    return dict(m=m, axis=draw(st.integers(0, m['n'] - 1)), off=draw(gen.fl(0.5, 5.)),
                g=draw(gen.fl(0.1, 0.9)), kind=draw(st.sampled_from(['notmax', 'noconv', 'lowmax'])))


def t_bad(c, ctx):
    from inference.deriv import dllsteps
    m, i = c['m'], c['axis']
    f = Fn(m)
    n = m['n']
    scale = f.s / np.sqrt(np.diag(f.B))
    mu = np.array(m['mu'])
    g = scale * c['g']
    if c['kind'] == 'notmax':
        # the true maximum along axis i is ahead: the first step goes uphill
        x = mu.copy()
        x[i] -= c['off'] * scale[i]
        g = g.copy()
        g[i] = scale[i] * 0.9 * c['g'] * min(1., c['off'])
        # the other axes must themselves look like a maximum
        if n > 1:
            if np.abs(f.B - np.diag(np.diag(f.B))).max() > 1e-9:
                return
        xin, gin = x.copy(), g.copy()
        ctx.raises(ValueError, lambda: dllsteps(lambda x: f(x), xin, gin), 'mle not at maximum')
        ctx.event('notmax')
    elif c['kind'] == 'lowmax':
        # maxll below the function: uphill for any step
        x = mu
        xin, gin = x.copy(), g.copy()
        ctx.raises(ValueError, lambda: dllsteps(lambda x: f(x), xin, gin, 1., f.value(mu) - 100. * c['off']),
                   'maxll below the function')
        ctx.event('lowmax')
    else:
        # no Newton iterations allowed and a very non-quadratic function
        x = mu
        xin, gin = x.copy(), g.copy()

        def hard(y):
            d = (np.array(y) - mu) / scale
            return float(-np.sum(np.abs(d) ** 0.35) * 3.)
        ctx.raises(RuntimeError, lambda: dllsteps(hard, xin, gin * 1e-3, 2., maxiter=1, tol=1e-8),
                   'no convergence')
        ctx.event('noconv')
    ctx.check(np.array_equal(xin, x), 'mle modified by a failing call')
    ctx.check(np.array_equal(gin, g), 'guess modified by a failing call')
    ctx.nontrivial()


check = vh.Check('P07', [
    vh.Sub('obsinfo', info_case(), t_info, quick=3000, thorough=80000, shards=2,
           rule='two or more parameters, roundoff bound below 1e-4'),
    vh.Sub('poisson', poisson_case(), t_poisson, quick=1000, thorough=20000,
           rule='two or more parameters'),
    vh.Sub('dllsteps', steps_case(), t_steps, quick=2000, thorough=60000, shards=2,
           rule='two or more parameters'),
    vh.Sub('failures', bad_case(), t_bad, quick=500, thorough=8000, rule='all'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['log likelihoods: quadratic/quartic polynomials in 1-12 parameters with scales of 1e-30 to 1e27, '
                 'products of Poisson likelihoods with >= 30 counts',
                 'tol of dllsteps is an absolute tolerance in log likelihood',
                 'roundoff bounded by 80 eps |f| / h^2 at the smallest step'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
