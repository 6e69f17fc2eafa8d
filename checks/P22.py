"""P22: the Bretthorst algorithm (gauss.vecba): statistics of linear amplitudes at given nonlinear parameters."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import pielib as L
import numpy as np
from hypothesis import strategies as st


class Kernel(object):
    """Reference for the C module vba, which is not built here (vbamodule.c documents these results)."""

    def metricAnalysis(self, dmat, data):
        dmat, data = np.array(dmat, float), np.array(data, float)
        if dmat.shape[1] != data.shape[0]:
            raise ValueError('inconsistent data dimensions!')
        metric = dmat.dot(dmat.T)
        chol = np.linalg.cholesky(metric)
        proj = dmat.dot(data)
        ampl = np.linalg.solve(metric, proj)
        return metric, chol, float(np.prod(np.diag(chol))), proj, ampl, float(ampl.dot(proj))

    def covar(self, chol):
        return np.linalg.inv(chol.dot(chol.T))


KINDS = ['cos', 'sin', 'const', 'lin', 'exp', 'quad']


def basis(kind, p, t, unit=(1., 1.)):
    w, q, t = p[0] / unit[0], p[-1] / unit[0], t / unit[1]
    if kind == 'cos':
        return np.cos(w * t)
    if kind == 'sin':
        return np.sin(q * t + .3)
    if kind == 'const':
        return np.ones(len(t))
    if kind == 'lin':
        return t - .1 * w
    if kind == 'quad':
        return t * t + q * t
    return np.exp(-.2 * abs(q) * t)


@st.composite
def case(draw):
    n = draw(st.integers(4, 12)) if draw(st.integers(0, 9)) else draw(st.integers(13, 40))
    many = draw(st.integers(0, 9)) == 9
    npar = draw(st.sampled_from([1, 2, 1, 2, 1, 2, 4]))
    cls = draw(st.sampled_from(['BA', 'BA', 'BAObj']))
    kinds = draw(st.permutations(KINDS))[:draw(st.sampled_from([1, 2, 3, 1, 2, 3, 1, 2, 3, 4]))]
    pool = [[draw(gen.fl(.2, 3.)) for _ in range(npar)] for _ in range(3)]
    alike = draw(st.integers(0, 3))
    if alike == 0:          # vectors that differ in one component only, or in order
        pool[1] = pool[0][:-1] + [pool[1][-1]]
        pool[2] = pool[0][::-1] if npar > 1 else pool[2]
    elif alike == 1:        # close vectors
        pool[1] = [q + 1e-3 for q in pool[0]]
        pool[2] = pool[0][:-1] + [pool[0][-1] * (1. + 1e-4)]
    u = draw(gen.unit())        # of the data
    pu, tu = draw(gen.unit()), draw(gen.unit())     # of the parameters and abscissas
    pool = [[q * pu for q in p] for p in pool]
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        ops.append([draw(st.sampled_from(['marg', 'marg', 'marg', 'amp', 'amp0', 'res', 'res0', 'cov', 'fail'])), draw(st.integers(0, 2)), draw(st.integers(1, 3))])
    return dict(cls=cls, kinds=list(kinds), t=sorted({draw(gen.fl(0., 6.)) * tu for _ in range(n)} if not many else {v * tu for v in np.random.RandomState(draw(st.integers(0, 9999))).uniform(0., 6., draw(st.integers(41, 300))).round(3).tolist()}), unit=[pu, tu], seed=draw(st.integers(0, 10 ** 6)), amp=u * draw(gen.logfl(.1, 100.)),
                sig=u * draw(gen.logfl(.05, 20.)), sigs=draw(st.sampled_from(['one', 'col', 'col'])), aux=draw(st.booleans()), pool=pool, ops=ops, two=draw(st.integers(0, 2)) == 0, cov0=draw(st.booleans()))


def t_ba(c, ctx):
    from inference.gauss import vecba
    t = np.array(c['t'])
    n, m = len(t), len(c['kinds'])
    if n < m + 1:
        return
    rs = np.random.RandomState(c['seed'])
    y = c['amp'] * rs.normal(size=n)
    sig = c['sig'] * np.exp(.7 * rs.normal(size=n)) if c['sigs'] == 'col' else np.full(n, c['sig'])
    data = np.column_stack([t, y, sig]) if c['sigs'] == 'col' else np.column_stack([t, y])
    state = dict(calls=0, fail=None)

    def hit():
        state['calls'] += 1
        if state['calls'] == state['fail']:
            raise KeyError('injected')

    def mk(kind):
        def f(*a):
            hit()
            if c['aux']:
                ctx.check(a[-1] == ('aux',) + a[:-2], 'the auxiliary object %r does not belong to the parameters %r', a[-1], a[:-2])
                a = a[:-1]
            ctx.check(np.array_equal(a[-1], t), 'the abscissas passed to a basis function are wrong')
            return basis(kind, a[:-1], a[-1], c['unit'])
        return f

    class Obj(object):
        def __init__(self):
            self.std_smpls = y / sig
            self.std_basis = [self.mk(k) for k in c['kinds']]

        def set_nonlin(self, *p):
            self.p = p

        def mk(self, kind):
            def f():
                hit()
                return basis(kind, self.p, t, c['unit']) / sig
            return f

    def new():
        if c['cls'] == 'BAObj':
            return vecba.BAObj(Obj())
        kw = dict(setup=lambda *a: ('aux',) + a[:-1]) if c['aux'] else {}
        if c['sigs'] == 'one':
            kw['sigma'] = c['sig']
        return vecba.BA([mk(k) for k in c['kinds']], data, **kw)
    if c['cls'] == 'BAObj':
        c['aux'] = False
    had = vecba.vba
    vecba.vba = Kernel()
    try:
        with L.quiet():
            before = data.copy()
            bs = [new(), new()]
            b = bs[0]
            if c['cov0']:
                ctx.raises(ValueError, b.covar, 'covariance before any calculation')
            if c['cls'] == 'BA':
                ctx.raises(ValueError, lambda: vecba.BA([mk('const')], np.column_stack([t, y])), 'data without sigmas')
                ctx.raises(ValueError, lambda: vecba.BA([mk('const')], np.column_stack([t, y, sig]), sigma=1.), 'two sets of sigmas')
            curs = [None, None]
            done = set()
            for op, k, at in c['ops']:
                # two objects take turns in some cases
                w = at % 2 if c['two'] else 0
                b, cur = bs[w], curs[w]
                p = c['pool'][k]
                X = np.array([basis(q, p, t, c['unit']) for q in c['kinds']]) / sig
                if np.linalg.cond(X) > 1e4:
                    continue
                state['calls'], state['fail'] = 0, None
                if op == 'fail':
                    state['fail'] = at
                    try:
                        b.marg_stats(*p)
                        curs[w] = p
                    except KeyError:
                        done.add('failed')
                    state['fail'] = None
                    continue
                if op in ('amp0', 'res0', 'cov'):
                    if cur is None:
                        continue
                    p = cur
                    X = np.array([basis(q, p, t, c['unit']) for q in c['kinds']]) / sig
                d = y / sig
                amp = np.linalg.lstsq(X.T, d, rcond=None)[0]
                res = d - amp.dot(X)
                chi = res.dot(res)
                e = 1e-11 + 2e-14 * np.linalg.cond(X) ** 2        # roundoff
                tol = e * (d.dot(d) + 1e-30)
                if op == 'marg':
                    r = b.marg_stats(*p)
                    ctx.equal(len(r), 3, 'number of statistics')
                    ctx.close(r[0], chi, 0., tol, 'quadratic form')
                    ctx.close(r[1], d.dot(d) - chi, 0., tol, 'sufficient statistic')
                    ctx.close(r[2], 1. / np.sqrt(np.linalg.det(X.dot(X.T))), 10. * e, 0., 'Jacobian')
                    curs[w] = p
                elif op in ('amp', 'amp0'):
                    got = b.amplitudes(*p) if op == 'amp' else b.amplitudes()
                    ctx.allclose(got, amp, 10. * e, 10. * e * (np.abs(amp).max() + np.sqrt(d.dot(d) / (X * X).sum())), 'amplitudes (%s)' % op)
                    curs[w] = p
                elif op in ('res', 'res0'):
                    got = b.residuals(*p) if op == 'res' else b.residuals()
                    ctx.allclose(got, res, 0., 10. * e * np.sqrt(d.dot(d)), 'residuals (%s)' % op)
                    curs[w] = p
                elif op == 'cov':
                    cov = np.linalg.inv(X.dot(X.T))
                    ctx.allclose(b.covar(), cov, 0., 10. * e * np.abs(cov).max(), 'covariance')
                done.add(op)
            ctx.check((data == before).all(), 'the data were altered')
    finally:
        vecba.vba = had
    for o in done:
        ctx.event(o)
    ctx.nontrivial(m > 1 and len(done) > 1)


check = vh.Check('P22', [
    vh.Sub('histories', case(), t_ba, quick=3000, thorough=60000, shards=4, rule='two or more basis functions, two or more kinds of operation'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['the C kernel (vba) is not built in this environment and is replaced by a numpy reference of its documented results',
                 'basis matrices of condition number < 1e4'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
