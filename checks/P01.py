"""P01: the score of an inference is the sum over predictors at the current parameter values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import pielib as L
import numpy as np
from hypothesis import strategies as st


@st.composite
def score_case(draw):
    spec = draw(L.model(npar=(1, 4), big=150, units=True, offset=True))
    if draw(st.integers(0, 7)) == 7:      # data far from the model
        d = draw(st.sampled_from(spec['preds']))['data']
        f = draw(gen.logfl(1e3, 1e9))
        d['val'] = [v * f for v in d['val']]
    names = [p['name'] for p in spec['pars']]
    u = L.units(spec)
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        nm = draw(st.sampled_from(names))
        ops.append([draw(st.sampled_from(['assign', 'assign', 'fix', 'vary', 'set', 'step', 'next', 'eval', 'none', 'failuse', 'failnote'])),
                    nm, draw(gen.fl(-6., 6.)) * u[nm], draw(st.integers(0, 2))])
    return dict(spec=spec, ops=ops)


def check_scores(ctx, spec, inf, par, method, what):
    want = L.score(spec, par, method)
    tol = 1e-11 * L.scale(spec, par)
    if want == -np.inf:
        ctx.check(inf.score() == want and inf.logp() == want, 'score %r where the prior vanishes', inf.score())
    else:
        stol = tol + (4e-16 * abs(spec['lp0']) if method == 'bayes' else 0.)
        ctx.close(inf.score(), want, 0., stol, '%s score %s' % (method, what))
        if method == 'bayes':
            ctx.close(inf.logp(), want, 0., stol, 'logp ' + what)
    ctx.check(not inf.__dict__.get('unused'), 'the signal was evaluated without a call of on_use after a change')
    for p in spec['preds']:
        h = getattr(inf, p['name'])
        d = p['data']
        sub = dict(spec, preds=[p])
        c = L.chi2(sub, par)
        ctx.close(h.chisqr(), c, 1e-11, tol, 'chisqr of %s %s' % (p['name'], what))
        ctx.close(h.log_like(), -.5 * c, 1e-11, tol, 'log_like of %s %s' % (p['name'], what))
        v = L.values(spec, par, d['loc'])
        ctx.allclose(h.prdxns, v, 1e-11, 1e-11 * (spec['U'] + np.abs(v).max()), 'predictions of %s' % p['name'])
        ctx.allclose(h.resids, np.array(d['val'], float) - v, 1e-11, 1e-11 * (spec['U'] + np.abs(v).max() + np.abs(d['val']).max()),
                     'residuals of %s' % p['name'])
        ctx.equal(h.ndata, len(d['val']), 'ndata')
        ctx.equal(h.dimen, spec['dim'], 'dimen')
        ctx.equal(h.name, p['name'], 'name of a predictor')
        ctx.equal(h.doc, p.get('doc'), 'documentation of a predictor')
        ctx.check(h.using_globals(), 'data that were not simulated are reported as local')


def t_score(c, ctx):
    spec = c['spec']
    names = [p['name'] for p in spec['pars']]
    u = L.units(spec)
    args = L.arrays(spec)
    with L.built(spec, args) as ns, L.quiet():
        a, b = ns['Inf'](), ns['Inf']()
        o = ns['Inf2']()
        other = 'maxlike' if spec['method'] != 'maxlike' else 'chisqr'
        ctx.equal(sorted(a.params), sorted(L.order(spec)), 'parameter names')
        if True:
            ctx.equal(list(a.params), L.order(spec), 'parameter order')
        ctx.equal(list(a.predictors), [p['name'] for p in spec['preds']], 'predictor names')
        cur = [dict((p['name'], p['default']) for p in spec['pars']) for _ in range(3)]
        insts = (a, b, o)
        meths = (spec['method'], spec['method'], other)
        for k, (i, par, m) in enumerate(zip(insts, cur, meths)):
            if c['ops'][0][0] == 'none':
                break       # leave some instances untouched at first
            check_scores(ctx, spec, i, par, m, 'at the defaults')
        changed = False
        for op, nm, v, k in c['ops']:
            i, par, m = insts[k], cur[k], meths[k]
            prm = getattr(i, nm)
            if op == 'assign':
                if prm.bounded and not prm.lo <= v <= prm.hi:
                    continue
                setattr(i, nm, v)
                par[nm] = v
            elif op == 'fix':
                if prm.bounded and not prm.lo <= v <= prm.hi:
                    continue
                prm.fix(v)
                par[nm] = v
            elif op == 'vary':
                prm.vary(v, .1 * u[nm], (-10. * u[nm], 10. * u[nm]))
                par[nm] = v
            elif op == 'set':
                if prm.status != 3:
                    prm.vary(v, .1 * u[nm], (-10. * u[nm], 10. * u[nm]))
                getattr(i, nm).set_value(v / 2.)
                par[nm] = v / 2.
            elif op == 'step':
                prm.step(v, v + u[nm], 3)
            elif op == 'next' and i.stepping_params:
                try:
                    i.next_step()
                except Exception as e:
                    ctx.check(type(e).__name__ == 'StopStepping', 'next_step raised %r', e)
            elif op == 'eval':
                i.score()
            elif op == 'failuse':       # on_use fails once after a change
                if not (prm.bounded and not prm.lo <= v <= prm.hi):
                    setattr(i, nm, v)
                    par[nm] = v
                i.__dict__['fail_use'] = True
                try:
                    i.score()
                except KeyError:
                    ctx.event('on_use failed')
                i.__dict__['fail_use'] = False
            elif op == 'failnote':      # on_param_change refuses the new value, which may stay or not
                if not (prm.bounded and not prm.lo <= v <= prm.hi):
                    i.__dict__['fail_note'] = True
                    ctx.raises(KeyError, lambda: setattr(i, nm, v), 'exception of on_param_change')
                    i.__dict__['fail_note'] = False
                    got = float(getattr(i, nm))
                    ctx.check(got in (par[nm], v), 'parameter %s is %r after a failed change from %r to %r', nm, got, par[nm], v)
                    par[nm] = got
            for p in names:       # stepped values are P03's business
                if i.stepping_params:
                    par[p] = float(getattr(i, p))
            changed = changed or op not in ('none', 'eval')
            check_scores(ctx, spec, i, par, m, 'after %s' % op)
            if not i.varying_params and not i.stepping_params:
                ctx.check(i.fit() == i.score(), 'fit() with fixed parameters gave %r, not the score %r', i.fit(), i.score())
        for i, par, m in zip(insts, cur, meths):
            check_scores(ctx, spec, i, par, m, 'at the end')
            for p in names:
                ctx.check(float(getattr(i, p)) == par[p], 'parameter %s: %r is not %r', p, float(getattr(i, p)), par[p])
    for x, y in zip(args, L.arrays(spec)):
        ctx.check(all(np.array_equal(np.array(u, dtype=object), np.array(v, dtype=object)) for u, v in zip(x, y)),
                  'the data were altered')
    ctx.nontrivial(changed)
    ctx.event(spec['method'])
    ctx.event('dim=%d' % spec['dim'])
    ctx.event('src=' + spec['src'])
    ctx.event('preds=%d' % len(spec['preds']))
    for p in spec['preds']:
        ctx.event('form=' + p['data']['form'])


@st.composite
def meta_case(draw):
    spec = draw(L.model(npar=(1, 4), npred=(2, 3)))
    return dict(spec=spec, par=[draw(gen.fl(-5., 5.)) for _ in spec['pars']], k=draw(st.sampled_from([2., .25, 8.])))


def t_meta(c, ctx):
    """signal and signals agree; the score adds over predictors; scaling the sigmas scales it."""
    spec = c['spec']
    par = dict((p['name'], v) for p, v in zip(spec['pars'], c['par']))

    def get(s):
        with L.built(s) as ns, L.quiet():
            i = ns['Inf']()
            for k, v in par.items():
                setattr(i, k, v)
            return i.score()
    tol = 1e-11 * L.scale(spec, par)
    full = get(spec)
    ctx.close(get(dict(spec, vector=not spec['vector'])), full, 0., tol, 'signal() against signals()')
    pri = L.log_prior(spec, par) if spec['method'] == 'bayes' else 0.
    parts = [get(dict(spec, preds=[p])) - pri for p in spec['preds']]
    ctx.close(sum(parts) + pri, full, 0., tol * len(parts), 'sum over predictors')
    ctx.close(get(dict(spec, preds=spec['preds'][::-1])), full, 0., tol, 'order of the predictors')
    sc = [dict(p, data=dict(p['data'], sig=[s * c['k'] for s in p['data']['sig']])) for p in spec['preds']]
    ctx.close(get(dict(spec, preds=sc)) - pri, (full - pri) / c['k'] ** 2, 0., tol, 'scaled sigmas')
    ctx.nontrivial()


@st.composite
def bad_case(draw):
    return dict(kind=draw(st.sampled_from(['len_loc', 'len_val', 'len_sig', 'dup', 'shape', 'loc3'])),
                n=draw(st.integers(1, 6)), d=draw(st.integers(1, 3)))


def t_bad(c, ctx):
    from inference.pie import SampledGaussian, DataError, SignalModel, PredictorSet, RealParam, ChisqrInference, InferenceError
    n = c['n']
    a = [np.ones(n) for _ in range(3)]
    with L.quiet():
        if c['kind'].startswith('len'):
            k = ('len_loc', 'len_val', 'len_sig').index(c['kind'])
            a[k] = np.ones(n + c['d'])
            ctx.raises(DataError, lambda: SampledGaussian(*a), 'data of different lengths')
        elif c['kind'] == 'shape':
            ctx.raises(DataError, lambda: SampledGaussian(np.ones(n)), 'one-dimensional data table')
        elif c['kind'] == 'loc3':
            ctx.raises(DataError, lambda: SampledGaussian(np.ones((n, 2, 2)), a[1], a[2]), 'locations of rank 3')
        else:
            class M(SignalModel):
                x = RealParam(1.)

                def signal(self, t):
                    return self.x * t

            class D(PredictorSet):
                x = RealParam(2.)
                d = SampledGaussian(*a)
            inf = type('I', (ChisqrInference, M, D), {})
            ctx.raises(InferenceError, inf, 'duplicate parameter name')
    ctx.event(c['kind'])
    ctx.nontrivial()


check = vh.Check('P01', [
    vh.Sub('histories', score_case(), t_score, quick=1200, thorough=30000, shards=4, rule='some parameter was changed'),
    vh.Sub('metamorphic', meta_case(), t_meta, quick=500, thorough=10000, shards=2, rule='all'),
    vh.Sub('illegal', bad_case(), t_bad, quick=100, thorough=200, rule='all'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['1..6 parameters, 1..5 Gaussian predictors of 1..150 data, 1..3-dimensional locations'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
