"""P05: observed information matrices of Bayesian inferences."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot, vh, gen
import pielib as L
import math
import numpy as np
from hypothesis import strategies as st
from P04 import linear, design, cond


@st.composite
def info_case(draw):
    spec = draw(linear(kinds=('linear', 'linear', 'square')))
    spec['method'] = 'bayes'
    names = [p['name'] for p in spec['pars']]
    u = L.units(spec)
    order = draw(st.permutations(names))
    nv = draw(st.integers(1, len(names)))
    ops = [dict(steps=draw(st.booleans()), dlogp=draw(st.sampled_from([None, None, 1., .3, 3.])), n=draw(st.sampled_from([None, None, 1, 2, 4])),
                err=draw(st.sampled_from([None, False, True])), drop=draw(st.integers(0, 3)) == 0, fail=draw(st.sampled_from([None, None, None, 1, 5, 25, 80])),
                g=[draw(st.one_of(gen.logfl(.2, 5.), gen.logfl(1e-3, 30.) if spec['kind'] == 'linear' else gen.logfl(.2, 5.))) for _ in range(nv)]) for _ in range(draw(st.integers(1, 3)))]
    return dict(spec=spec, vary=order[:nv], fixed=dict((nm, u[nm] * draw(gen.fl(-4., 4.))) for nm in order[nv:]), ops=ops,
                delta=[draw(gen.logfl(.3, 3.)) for _ in range(nv)], mode=[draw(st.one_of(st.just(0.), gen.fl(-3., 3.), gen.fl(-3., 3.))) for _ in names],
                mapped=draw(st.integers(0, 3)) == 0, stepped=draw(st.integers(0, 3)) == 0, narrow=draw(st.integers(0, 7)) == 0)


def t_info(c, ctx):
    spec = c['spec']
    free = c['vary']
    par = dict(c['fixed'])
    u = L.units(spec)
    fu = np.array([u[n] for n in free])
    if spec['kind'] == 'linear':
        X, y, fac, const = design(spec, free, c['fixed'])
        if cond(X, fu) > 30.:
            return
        b = np.linalg.lstsq(X * fu, y, rcond=None)[0] * fu
        par.update(zip(free, b.tolist()))
    else:
        # noiseless data and a prior centred on the mode: the information has no residual terms
        par.update((nm, v * u[nm]) for nm, v in zip(free, c['mode']))
        spec = dict(spec, prior=[(par[p['name']], s) for p, (m, s) in zip(spec['pars'], spec['prior'])],
                    preds=[dict(p, data=dict(p['data'], val=[float(v) for v in L.values(spec, par, p['data']['loc'])])) for p in spec['preds']])
        rows = []
        for p in spec['preds']:
            col = L.columns(spec, p['data']['loc'])
            lin = sum(par[q['name']] * w for q, w in zip(spec['pars'], col))
            w = (1. + .2 * lin) * spec['U'] / np.array(p['data']['sig'])
            rows.append(np.array([w * dict(zip([q['name'] for q in spec['pars']], col))[n] for n in free]).T)
        for q, (m, s) in zip(spec['pars'], spec['prior']):
            if q['name'] in free:
                rows.append(np.array([[1. / s if n == q['name'] else 0. for n in free]]))
        X = np.concatenate(rows)
        if cond(X, fu) > 30.:
            return
    want = X.T @ X
    sc = 1. / np.sqrt(np.diag(want))
    lmax = abs(L.score(spec, par)) + 1e-12 * L.scale(spec, par)
    nt = False
    with L.built(spec) as ns, L.quiet():
        i, other = ns['Inf'](), ns['Inf']()
        for nm, v in c['fixed'].items():
            setattr(i, nm, v)
        deltas = [d * s for d, s in zip(c['delta'], sc)]
        for nm, d, s in zip(free, deltas, sc):
            w = max(1e4 * u[nm], 1e3 * s) if not c['narrow'] else 1e-3 * s
            getattr(i, nm).vary(par[nm], d, (par[nm] - w, par[nm] + w))

        def state(what):
            for q in spec['pars']:
                ctx.check(float(getattr(i, q['name'])) == par[q['name']], '%s: %s is %r, not the mode %r', what, q['name'], float(getattr(i, q['name'])), par[q['name']])
            ctx.equal([q.name for q in i.varying_params], free, what + ': varying parameters')
            ctx.check([float(getattr(i, nm).delta) for nm in free] == [float(d) for d in deltas], '%s: the scales of the parameters changed', what)
        if c['mapped']:
            i.map_bounds()
        if c['stepped'] and c['fixed']:     # a stepped parameter is at its first step
            nm = sorted(c['fixed'])[0]
            getattr(i, nm).step(c['fixed'][nm], c['fixed'][nm] + u[nm], 3)
        for o in c['ops']:
            if o['drop'] and len(free) > 1:
                k = len(o['g']) % len(free)
                getattr(i, free[k]).fix()
                keep = [j for j in range(len(free)) if j != k]
                free, deltas, sc = [free[j] for j in keep], [deltas[j] for j in keep], sc[keep]
                want = want[np.ix_(keep, keep)]
                ctx.event('parameter fixed')
            kw = {}
            if o['steps']:
                kw['steps'] = [g * s for g, s in zip(o['g'], sc)]
            for key in ('dlogp', 'n', 'err'):
                if o[key] is not None:
                    kw[key] = o[key]
            if c['narrow']:
                from inference.pie.param import ParamRangeError
                try:
                    i.obs_info(**kw)
                    ctx.check(False, 'obs_info evaluated the posterior out of range')
                except ParamRangeError:
                    pass
                state('after obs_info failed at the range')
                nt = True
                continue
            if o['fail'] is not None:
                i.__dict__['fail_at'] = i.__dict__.get('ncalls', 0) + o['fail']
                try:
                    i.obs_info(**kw)
                except KeyError:
                    nt = True
                    ctx.event('failed')
                except RuntimeError:
                    ctx.check(spec['kind'] == 'square', 'obs_info gave up on a Gaussian posterior')
                i.__dict__['fail_at'] = None
                state('after a failure in obs_info')
                continue
            try:
                r = i.obs_info(**kw)
            except RuntimeError:
                # strongly nonlinear: the search for steps may give up (and says so)
                ctx.check(spec['kind'] == 'square', 'obs_info gave up on a Gaussian posterior')
                state('after obs_info gave up')
                ctx.event('gave up')
                continue
            if o['steps']:
                ctx.check(kw['steps'] == [g * s for g, s in zip(o['g'], sc)], 'obs_info altered its steps argument')
            state('after obs_info')
            if o['err']:
                ctx.check(isinstance(r, tuple) and len(r) == 2, 'obs_info(err=True) gave %s', type(r))
                r, e = r
                ctx.arr(e, (len(free),) * 2, 'errors of the information')
            r = ctx.arr(r, (len(free),) * 2, 'information matrix')
            d = o['dlogp'] or 1.
            tol = 1e-6 if spec['kind'] == 'linear' else 1e-5
            tol = tol + 1e-11 * lmax / d + 1e-13 * L.scale(spec, par)
            if tol < 1e-2:
                ctx.allclose(r * np.outer(sc, sc), want * np.outer(sc, sc), 0., tol, 'information matrix (scaled)')
                ctx.allclose(r * np.outer(sc, sc), (r * np.outer(sc, sc)).T, 1e-7, tol * 1e-3, 'symmetry of the information matrix')
                nt = True
        p0 = dict((p['name'], p['default']) for p in spec['pars'])
        ctx.close(other.score(), L.score(spec, p0), 1e-9, 1e-9 * L.scale(spec, p0), 'score of another instance')
        ctx.close(i.logp(), L.score(spec, par), 1e-9, 1e-10 * L.scale(spec, par), 'logp afterwards')
    ctx.event(spec['kind'])
    ctx.event('nv=%d' % len(free))
    ctx.nontrivial(nt)


@st.composite
def fit_case(draw):
    spec = draw(linear(npar=(1, 3)))
    spec['method'] = 'bayes'
    return dict(spec=spec, start=[draw(gen.fl(-3., 3.)) * p['unit'] for p in spec['pars']], mapped=draw(st.booleans()))


def t_fitinfo(c, ctx):
    """Fit, then information: as users do."""
    from inference.utils.nrmin import IterErr
    spec = c['spec']
    free = [p['name'] for p in spec['pars']]
    X, y, fac, const = design(spec, free, {})
    u = L.units(spec)
    if cond(X, [u[n] for n in free]) > 8.:
        return
    want = X.T @ X
    sc = 1. / np.sqrt(np.diag(want))
    with L.built(spec) as ns, L.quiet():
        i = ns['Inf']()
        for nm, v, s in zip(free, c['start'], sc):
            getattr(i, nm).vary(v, float(s), (-60. * u[nm], 50. * u[nm]) if c['mapped'] else (-1e7 * u[nm], 1e7 * u[nm]))
        if c['mapped']:
            i.map_bounds()
        try:
            p, f = i.fit(tol=1e-10)
        except IterErr:
            ctx.event('not converged')
            return
        r = i.obs_info()
        F = abs(L.score(spec, dict(zip(free, p))))
        ctx.allclose(np.asarray(r) * np.outer(sc, sc), want * np.outer(sc, sc), 0., 1e-6 + 1e-10 * F, 'information after a fit')
        ctx.check([float(getattr(i, n)) for n in free] == [float(v) for v in p], 'obs_info moved the parameters')
    ctx.nontrivial()


@st.composite
def steps_case(draw):
    return dict(a=draw(gen.fl(-2., 2.)), b=draw(gen.fl(-2., 2.)), sig=draw(gen.logfl(.05, .3)), n=draw(st.integers(2, 8)), order=draw(st.booleans()),
                ops=[dict(g=[draw(gen.logfl(.1, 5.)) for _ in range(2)], steps=draw(st.booleans()), dlogp=draw(st.sampled_from([None, None, .3, 1., 3.])),
                          niter=draw(st.sampled_from([None, 0, 1, 1, 2])), err=draw(st.booleans())) for _ in range(3)])


def t_steps(c, ctx):
    """An exponential model, where the extrapolation leaves an error that shows the steps used."""
    from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, BayesianInference
    from inference.deriv import dllsteps, obsinfo
    xs = np.linspace(0., 1., c['n'])
    y = np.exp(c['a'] + c['b'] * xs)
    sg = np.full(c['n'], c['sig'] * y.mean())

    class M(SignalModel):
        a = RealParam(1.)
        b = RealParam(1.)

        def signal(self, x):
            return np.exp(self.a + self.b * x)

        def log_prior(self):
            return 0.
    names = ['b', 'a'] if c['order'] else ['a', 'b']
    cols = dict(a=y / sg, b=xs * y / sg)
    X = np.array([cols[n] for n in names]).T
    if cond(X) > 30.:
        return
    want = X.T @ X
    sc = 1. / np.sqrt(np.diag(want))

    def logp(v):
        d = dict(zip(names, v))
        return -.5 * float(np.sum(((y - np.exp(d['a'] + d['b'] * xs)) / sg) ** 2))
    with L.quiet():
        class D(PredictorSet):
            d = SampledGaussian(xs, y, sg)

        class I(BayesianInference, M, D):
            pass
        i = I()
        mode = [c[n] for n in names]
        nt = 0
        for o in c['ops']:
            steps = [float(g * s) for g, s in zip(o['g'], sc)]
            for n, m, s in zip(names, mode, steps):
                getattr(i, n).vary(m, 2. * s if o['steps'] else s, (-1e3, 1e3))
            kw = dict(steps=steps) if o['steps'] else {}
            if o['dlogp'] is not None:
                kw['dlogp'] = o['dlogp']
            if o['niter'] is not None:
                kw['n'] = o['niter']
            try:
                d = dllsteps(logp, np.array(mode), np.array(steps), o['dlogp'] or 1., 0.)
            except RuntimeError:
                ctx.event('no scales')
                continue
            ref, eref = obsinfo(logp, np.array(mode), d, 0., niter=3 if o['niter'] is None else o['niter'])
            r = i.obs_info(err=True, **kw) if o['err'] else (i.obs_info(**kw), eref)
            S = np.outer(sc, sc)
            ctx.allclose(np.asarray(r[0]) * S, ref * S, 0., 1e-9, 'information with steps for dlogp=%r, n=%r' % (o['dlogp'], o['niter']))
            ctx.allclose(np.asarray(r[1]) * S, eref * S, 0., 1e-9, 'error of the information')
            ctx.allclose(np.asarray(r[0]) * S, want * S, 0., 1., 'information against the curvature')
            nt += 1
    ctx.nontrivial(nt)


check = vh.Check('P05', [
    vh.Sub('steps', steps_case(), t_steps, quick=400, thorough=6000, shards=2, rule='a matrix was compared'),
    vh.Sub('info', info_case(), t_info, quick=1500, thorough=40000, shards=5, rule='a matrix was compared, or a failure injected'),
    vh.Sub('fit', fit_case(), t_fitinfo, quick=300, thorough=5000, shards=2, rule='the fit converged'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['linear models with Gaussian priors, and quadratic models with noiseless data, where the information is known in closed form',
                 'starting scales within a factor of 5 (quadratic models) or 30 to 1000 of the conditional widths'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
