"""P04: fits optimise the score over the varying parameters."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import pielib as L
import math
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import lsq_linear


@st.composite
def linear(draw, npar=(1, 4), npred=(1, 2), kinds=('linear',)):
    """Linear model with spread locations and noisy data."""
    spec = draw(L.model(npar=npar, npred=npred, dims=(1,), kinds=kinds, nmax=1, ints=False, units=True))
    true = [draw(gen.fl(-4., 4.)) * p['unit'] for p in spec['pars']]
    par = dict((p['name'], v) for p, v in zip(spec['pars'], true))
    for p in spec['preds']:
        n = draw(st.integers(6, 10))
        loc = [[(-5. + 10. * (j + draw(gen.fl(.05, .95))) / n) * spec['X']] for j in range(n)]
        sig = [draw(gen.logfl(.3, 2.)) * spec['U'] for _ in range(n)]
        noise = [(-1) ** j * .7 + draw(gen.fl(-1.5, 1.5)) for j in range(n)]
        val = list(L.values(spec, par, loc) + np.array(noise) * sig)
        p['data'].update(loc=loc, val=[float(v) for v in val], sig=sig)
    return spec


@st.composite
def fit_case(draw):
    spec = draw(linear(kinds=('linear', 'linear', 'linear', 'square')))
    names = [p['name'] for p in spec['pars']]
    u = L.units(spec)
    rounds = []
    for j in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        order = draw(st.permutations(names))
        nv = draw(st.integers(1, len(names)))
        vary = [dict(name=nm, start=u[nm] * draw(gen.fl(-5., 5.)), delta=u[nm] * draw(gen.logfl(.1, 3.)), box=[u[nm] * draw(gen.fl(.05, 8.)) for _ in range(2)],
                     edge=draw(st.sampled_from([None, None, None, 'step', 'lo', 'hi'])), keep=j > 0 and draw(st.booleans()))
                for nm in order[:nv]]
        rounds.append(dict(vary=vary, fixed=dict((nm, u[nm] * draw(gen.fl(-4., 4.))) for nm in order[nv:]),
                           bounds=draw(st.sampled_from(['wide', 'wide', 'mapped', 'mapped', 'box'])),
                           tol=draw(st.sampled_from([None, None, None, 1e-3, 1e-8])), method=draw(st.sampled_from([None, 'powell', 'Powell'])),
                           call=draw(st.sampled_from(['fit', 'fit', 'optimize'])), rebound=draw(st.booleans())))
    return dict(spec=spec, rounds=rounds)


def design(spec, free, fixed, method=None):
    """Whitened design matrix and data of the varying parameters (in order), incl. the prior of a Bayesian inference;
    scores are (minus) the squared residual times a factor plus a constant: (X, y, factor, const)."""
    X, y = [], []
    m = method or spec['method']
    for p in spec['preds']:
        d = p['data']
        c = dict((q['name'], w) for q, w in zip(spec['pars'], L.columns(spec, d['loc'])))
        s = np.array(d['sig'], float) / spec.get('U', 1.)
        X.append(np.array([c[n] for n in free]).T / s[:, None])
        y.append((np.array(d['val'], float) / spec.get('U', 1.) - sum(v * c[n] for n, v in fixed.items())) / s)
    const = 0.
    if m == 'bayes':
        for q, (mu, sg) in zip(spec['pars'], spec['prior']):
            if q['name'] in free:
                row = np.zeros((1, len(free)))
                row[0, free.index(q['name'])] = 1. / sg
                X.append(row)
                y.append(np.array([mu / sg]))
            else:
                const += ((fixed[q['name']] - mu) / sg) ** 2
    return np.concatenate(X), np.concatenate(y), (1. if m == 'chisqr' else -.5), const


def cond(X, u=None):
    n = np.sqrt((X ** 2).sum(0))
    return np.inf if (n < 1e-8 * (1. if u is None else 1. / np.array(u))).any() else np.linalg.cond(X / n)


def slack(k, tol):
    """Generous bound on the relative excess of an optimised score at relative tolerance tol and condition number k."""
    if k < 3.:
        return max(300. * tol, 1e-7)
    return max(5e4 * tol, 1e-5)


KMAX = 12.


def t_fit(c, ctx):
    """One or more fits with the same inference, each with its own varying and fixed parameters."""
    spec = c['spec']
    with L.built(spec) as ns, L.quiet():
        i, other = ns['Inf'](), ns['Inf']()
        varying = []
        for j, r in enumerate(c['rounds']):
            if not fit_round(spec, i, other, r, j, varying, ctx):
                return
        ctx.event('rounds=%d' % len(c['rounds']))


def fit_round(spec, i, other, c, j, varying, ctx):
    from inference.pie.param import ParamRangeError
    from inference.utils.nrmin import IterErr
    u = L.units(spec)
    c = dict(c, vary=[dict(v) for v in c['vary']])
    if j:       # parameters that were varying stay first in the list
        for nm in list(u):
            getattr(i, nm).range(-1e7 * u[nm], 1e7 * u[nm])
        c['vary'].sort(key=lambda v: varying.index(v['name']) if v['name'] in varying else len(varying))
    free = varying[:] = [v['name'] for v in c['vary']]
    fu = np.array([u[n] for n in free])
    if True:
        for nm, v in c['fixed'].items():
            setattr(i, nm, v)
        box = []
        for v in c['vary']:
            if v['keep'] and c['bounds'] == 'wide':       # from where it is
                v['start'] = float(getattr(i, v['name']))
            if c['bounds'] == 'wide':
                r = (-1e7 * u[v['name']], 1e7 * u[v['name']])
            elif c['bounds'] == 'mapped':
                r = (-60. * u[v['name']], 50. * u[v['name']])
            else:
                r = (v['start'] - v['box'][0], v['start'] + v['box'][1])
            box.append(r)
            delta = min(v['delta'], .9 * max(r[1] - v['start'], v['start'] - r[0]))
            if c['bounds'] == 'box' and v['edge'] == 'step':       # the first step ends on the boundary
                delta = max(r[1] - v['start'], v['start'] - r[0])
            elif c['bounds'] == 'box' and v['edge'] in ('lo', 'hi'):
                v['start'] = r[0] if v['edge'] == 'lo' else r[1]
            v['used'] = delta
            if v['keep'] and c['bounds'] == 'wide':
                getattr(i, v['name']).vary(delta=delta, range=r)
            else:
                getattr(i, v['name']).vary(v['start'], delta, r)
        if c['bounds'] != 'wide':
            i.map_bounds()
        else:
            if c['rebound']:
                i.map_bounds()
            if c['rebound'] or j:
                i.unmap_bounds()
        start = dict(c['fixed'])
        start.update((v['name'], v['start']) for v in c['vary'])
        kw = {}
        settings = (i.min_method, i.min_tol)
        if c['tol'] is not None:
            kw['tol'] = c['tol']
        if c['method']:
            kw['method'] = c['method']
        lin = spec['kind'] == 'linear'
        if lin:
            X, y, fac, const = design(spec, free, c['fixed'])
            k = cond(X, fu)
        else:
            k = np.inf
        try:
            if c['call'] == 'fit':
                p, f = i.fit(**kw)
            else:
                p, f, _ = i.optimize(**kw)
        except (IterErr, ParamRangeError) as e:
            # a failure to converge is reported; it must not happen for easy problems
            ctx.check(not (lin and k < 1.5 and c['bounds'] == 'wide' and c['tol'] is None), 'the optimisation of a well conditioned linear model failed: %r', e)
            ctx.event('not converged')
            return False
        p = np.array(p, float)
        ctx.equal((i.min_method, i.min_tol), settings, 'default method and tolerance after a fit')
        ctx.equal(p.shape, (len(free),), 'shape of the optimised parameters')
        ctx.check(np.isfinite(p).all() and np.isfinite(f), 'non-finite optimum %r %r', p, f)
        end = dict(c['fixed'])
        end.update(zip(free, p.tolist()))
        for q in spec['pars']:
            ctx.check(float(getattr(i, q['name'])) == end[q['name']], 'parameter %s is left at %r, not at %r', q['name'],
                      float(getattr(i, q['name'])), end[q['name']])
        for v, r, x in zip(c['vary'], box, p):
            ctx.check(r[0] <= x <= r[1], 'optimum %s=%r outside the range %r', v['name'], x, r)
        ctx.equal([q.name for q in i.varying_params], free, 'varying parameters afterwards')
        ctx.equal(sorted(q.name for q in i.fixed_params), sorted(c['fixed']), 'fixed parameters afterwards')
        for v, r in zip(c['vary'], box):
            q = getattr(i, v['name'])
            ctx.check((q.lo, q.hi, q.delta) == r + (v['used'],), 'range and scale of %s afterwards are %r', v['name'], (q.lo, q.hi, q.delta))
        want = L.score(spec, end)
        ctx.close(f, want, 1e-10, 1e-10 * L.scale(spec, end), 'extremum against the score at the optimum')
        ctx.close(i.score(), want, 1e-10, 1e-10 * L.scale(spec, end), 'score after the fit')
        sgn = 1. if spec['method'] == 'chisqr' else -1.
        s0 = L.score(spec, start)
        ctx.check(sgn * f <= sgn * s0 + 1e-9 * (abs(s0) + L.scale(spec, start) * 1e-3), 'the fit made the score worse: %r from %r', f, s0)
        ctx.check(not other.varying_params, 'another instance was affected')
        tol = 1e-6 if c['tol'] is None else c['tol']
        nt = True
        if lin and k < KMAX and (c['bounds'] != 'box' or len(free) == 1):
            lo, hi = np.array(box).T
            o = lsq_linear(X * fu, y, (lo / fu, hi / fu), tol=1e-14)
            b = o.x * fu
            F = float(((y - X @ b) ** 2).sum())
            best = fac * (F + const)
            # starts and first steps near a boundary have extreme mapped values: only consistency is required of them
            edge = any(not (r[0] + .02 * (r[1] - r[0]) <= x <= r[1] - .02 * (r[1] - r[0])) for v, r in zip(c['vary'], box)
                       for x in (v['start'], v['start'] + v['used'] if v['start'] + v['used'] <= r[1] else v['start'] - v['used']))
            if c['bounds'] == 'mapped' and (np.abs(b / fu) > 30.).any():
                ctx.event('far')
            elif c['bounds'] == 'box' and edge:
                ctx.event('edge')
            elif F > 1e-2:
                lim = slack(k, tol)
                if c['bounds'] == 'box':
                    lim = max(lim, 1e-3)
                ctx.check(sgn * (f - best) <= lim * abs(best) + 1e-9 * L.scale(spec, end), 'optimised score %r, the optimum is %r (condition %.3g)', f, best, k)
                ctx.check(sgn * (f - best) >= -1e-8 * L.scale(spec, end), 'optimised score %r beyond the optimum %r', f, best)
                if c['bounds'] != 'box':
                    # distance in the metric of the score
                    e2 = float(((X @ (p - b)) ** 2).sum())
                    ctx.check(e2 <= lim * (F + const) + 1e-9 * L.scale(spec, end), 'optimised parameters %r, the optimum is %r', p, b)
                ctx.event('optimum checked')
        else:
            nt = lin is False
        ctx.event(c['bounds'])
        ctx.event('nv=%d' % len(free))
        ctx.nontrivial(nt)
    return True


@st.composite
def profile_case(draw):
    spec = draw(linear(npar=(2, 4)))
    names = draw(st.permutations([p['name'] for p in spec['pars']]))
    u = L.units(spec)
    ns = draw(st.integers(1, min(2, len(names) - 1)))
    nv = draw(st.integers(1, len(names) - ns))
    steps = []
    for nm in names[:ns]:
        a, b = draw(gen.fl(-5., 5.)), draw(gen.fl(-5., 5.))
        b = b if abs(b - a) > .1 else a + 1.
        if draw(st.integers(0, 7)) == 7:      # nearly equal values
            b = a + 10. ** draw(st.integers(-8, -5)) * (b - a)
        steps.append([nm, a * u[nm], b * u[nm], draw(st.integers(2, 5))])
    return dict(spec=spec, steps=steps, vary=[[nm, u[nm] * draw(gen.fl(-5., 5.)), u[nm] * draw(gen.logfl(.1, 3.))] for nm in names[ns:ns + nv]],
                fixed=dict((nm, u[nm] * draw(gen.fl(-4., 4.))) for nm in names[ns + nv:]), mapped=draw(st.booleans()),
                vargrid=draw(st.booleans()), nlog=draw(st.sampled_from([None, None, 1, 2])), tol=draw(st.sampled_from([None, None, 1e-3, 1e-9])),
                method=draw(st.sampled_from([None, 'POWELL'])), first=draw(st.booleans()), pre=draw(st.integers(0, 3)),
                fail=draw(st.sampled_from([None, None, 0, 7, 60, 300])))


def t_profile(c, ctx):
    from inference.pie.param import ParamRangeError
    from inference.utils.nrmin import IterErr
    spec = c['spec']
    free = [v[0] for v in c['vary']]
    u = L.units(spec)
    fu = np.array([u[n] for n in free])
    with L.built(spec) as ns, L.quiet():
        i = ns['Inf']()
        for nm, v in c['fixed'].items():
            setattr(i, nm, v)

        def vary():
            for nm, s, d in c['vary']:
                getattr(i, nm).vary(s, d, (-60. * u[nm], 50. * u[nm]) if c['mapped'] else (-1e7 * u[nm], 1e7 * u[nm]))
        if c['first']:
            vary()
        for nm, lo, hi, n in c['steps']:
            getattr(i, nm).step(lo, hi, n)
        if not c['first']:
            vary()
        if c['mapped']:
            i.map_bounds()
        for _ in range(c['pre']):
            try:
                i.next_step()
            except Exception:
                pass
        if c['fail'] is not None:
            i.__dict__['fail_at'] = i.__dict__.get('ncalls', 0) + 1 + c['fail']
            try:
                i.fit()
            except (KeyError, IterErr, ParamRangeError):
                ctx.event('failed before')
            i.__dict__['fail_at'] = None
        shape = tuple(s[3] for s in c['steps'])
        pts = []
        for ind in np.ndindex(*shape):
            f = dict(c['fixed'])
            f.update((s[0], s[1] + (s[2] - s[1]) * j / (s[3] - 1.)) for s, j in zip(c['steps'], ind))
            pts.append((ind, f, design(spec, free, f)))
        k = cond(pts[0][2][0], fu)
        try:
            kw = dict((a, c[a]) for a in ('nlog', 'tol', 'method') if c[a] is not None)
            g = i.fit(vargrid=True, **kw) if c['vargrid'] else i.fit(**kw)
        except (IterErr, ParamRangeError) as e:
            ctx.check(not (k < 1.5 and not c['mapped'] and c['fail'] is None and c['tol'] is None), 'the profile of a well conditioned linear model failed: %r', e)
            ctx.event('not converged')
            return
        vg = None
        if c['vargrid']:
            ctx.check(isinstance(g, tuple) and len(g) == 2, 'fit(vargrid=True) gave %s', type(g))
            g, vg = g
        ctx.equal(np.shape(g.values), shape, 'shape of the profile')
        ctx.check(not np.isnan(g.values).any(), '%d of %d values of the profile were not evaluated', np.isnan(g.values).sum(), g.values.size)
        ctx.check([tuple(a)[:4] for a in g.axes] == [tuple(s) for s in c['steps']], 'axes are %r', g.axes)
        sgn = 1. if spec['method'] == 'chisqr' else -1.
        best = (g.values if sgn > 0 else -g.values).min() * sgn
        ctx.check(g.opt_val == best, 'opt_val is %r, the best value is %r', g.opt_val, best)
        ctx.check(len(g.opt_ind) == len(shape) and g.values[tuple(g.opt_ind)] == best, 'the value at opt_ind %r is not the best', g.opt_ind)
        if vg is not None:
            ctx.equal(np.shape(vg.values), shape + ((len(free),) if len(free) > 1 else ()), 'shape of the varying parameter grid')
            ctx.equal(tuple(vg.opt_ind), tuple(g.opt_ind), 'opt_ind of the varying parameter grid')
            ctx.check([tuple(a)[:4] for a in vg.axes] == [tuple(s) for s in c['steps']], 'axes of the varying parameter grid are %r', vg.axes)
        for ind, f, (X, y, fac, const) in pts:
            if vg is not None:
                e = dict(f)
                e.update(zip(free, np.atleast_1d(vg.values[ind])))
                ctx.close(L.score(spec, e), g.values[ind], 1e-9, 1e-9 * L.scale(spec, e), 'profile at %r against the score at its parameters' % (ind,))
            b = np.linalg.lstsq(X * fu, y, rcond=None)[0] * fu
            F = float(((y - X @ b) ** 2).sum())
            if k < KMAX and F > 1e-2 and not (c['mapped'] and (np.abs(b / fu) > 25.).any()):
                o = fac * (F + const)
                ctx.check(sgn * (g.values[ind] - o) <= slack(k, c['tol'] or 1e-6) * abs(o) + 1e-9 * abs(fac) * float((y * y).sum()), 'profile at %r is %r, the optimum is %r', ind, g.values[ind], o)
                ctx.check(sgn * (g.values[ind] - o) >= -1e-8 * (abs(o) + float((y * y).sum())), 'profile at %r is %r, beyond the optimum %r', ind, g.values[ind], o)
        ctx.equal(i.step_nums(), (0,) * len(shape), 'step_nums afterwards')
        ctx.equal([q.name for q in i.varying_params], free, 'varying parameters afterwards')
        ctx.equal([q.name for q in i.stepping_params], [s[0] for s in c['steps']], 'stepping parameters afterwards')
        for nm, v in c['fixed'].items():
            ctx.check(float(getattr(i, nm)) == v, 'fixed parameter %s changed', nm)
    ctx.nontrivial(k < KMAX)
    ctx.event('nv=%d' % len(free))
    ctx.event('nstep=%d' % len(shape))


@st.composite
def bad_case(draw):
    return dict(kind=draw(st.sampled_from(['novary', 'method', 'range', 'nomethod'])), a=draw(gen.fl(.1, 5.)), call=draw(st.booleans()),
                m=draw(st.sampled_from(['simplex', 'x', 'powel'])))


def t_bad(c, ctx):
    """Impossible requests are refused; a fit that leaves the range of a parameter reports that."""
    from inference.pie import SampledGaussian, SignalModel, PredictorSet, RealParam, ChisqrInference, InferenceError
    from inference.pie.inference_base import Inference
    from inference.pie.param import ParamRangeError
    with L.quiet():
        class M(SignalModel):
            x = RealParam(1.)

            def signal(self, t):
                return self.x * t

        class D(PredictorSet):
            d = SampledGaussian(np.array([1., 2., 3.]), c['a'] * np.array([1., 2., 3.]) + [.1, -.2, .1], np.ones(3))

        class I(ChisqrInference, M, D):
            pass
        i = I()
        if c['kind'] == 'novary':
            ctx.raises(InferenceError, i.optimize, 'optimize() without varying parameters')
        elif c['kind'] == 'method':
            i.x.vary(0., .1, (-50., 50.))
            ctx.raises(InferenceError, lambda: (i.fit if c['call'] else i.optimize)(method=c['m']), 'unknown method')
        elif c['kind'] == 'nomethod':
            class J(Inference, M, D):
                extremize = 'min'
                score = ChisqrInference.score
            j = J()
            j.x.vary(0., .1, (-50., 50.))
            ctx.raises(InferenceError, j.fit, 'no method')
            ctx.raises(InferenceError, lambda: j.fit(method='powell'), 'no tolerance')
            p, f = j.fit(method='powell', tol=1e-6)
            ctx.close(float(p[0]), c['a'], 0., .2, 'fit with a base class inference')
        else:
            i.x.vary(c['a'] + 5., .1, (c['a'] + 1., c['a'] + 9.))
            ctx.raises(ParamRangeError, i.fit, 'optimum out of range')
            ctx.check(c['a'] + 1. <= i.x <= c['a'] + 9., 'the parameter left its range: %r', float(i.x))
    ctx.event(c['kind'])
    ctx.nontrivial()


check = vh.Check('P04', [
    vh.Sub('fit', fit_case(), t_fit, quick=2400, thorough=40000, shards=4, rule='the optimum of a linear model is known, or the model is nonlinear'),
    vh.Sub('profile', profile_case(), t_profile, quick=700, thorough=10000, shards=4, rule='well conditioned conditional problems (optimum checked)'),
    vh.Sub('refused', bad_case(), t_bad, quick=60, thorough=200, rule='all'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['models linear in 1..4 parameters (nonlinear ones: consistency only)', 'the optimum is checked where the scaled design matrix has condition number < 12'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
