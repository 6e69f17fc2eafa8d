"""P06: simulated data: local to an instance, sampled from the model, at the requested places."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import pielib as L
import math
import numpy as np
from hypothesis import strategies as st


@st.composite
def hist_case(draw):
    spec = draw(L.model(npar=(1, 3), npred=(1, 2), nmax=5, big=60, units=True))
    dim = spec['dim']

    def loc():
        return [draw(gen.fl(-5., 5.)) * spec['X'] for _ in range(dim)]
    sig = gen.logfl(.05, 20.)
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(['sim', 'sim', 'siml', 'sims', 'simls', 'sim1', 'sim1', 'add', 'add', 'addn', 'local', 'par', 'par', 'bad', 'score']))
        m = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 13]))
        ops.append(dict(op=k, inst=draw(st.sampled_from([0, 0, 1, 2])), pred=draw(st.integers(0, 1)), n=draw(st.integers(0, 30)),
                        loc=[loc() for _ in range(m)], sig=[draw(sig) * spec['U'] for _ in range(m)], one=draw(st.sampled_from(['', 'l', 's', 'ls'])),
                        v=draw(gen.fl(-4., 4.)), neg=draw(st.integers(0, 3)) == 0, lists=draw(st.booleans())))
    return dict(spec=spec, ops=ops, seed=draw(st.integers(0, 2 ** 31)))


def t_hist(c, ctx):
    spec = c['spec']
    dim = spec['dim']
    names = [p['name'] for p in spec['pars']]
    args = L.arrays(spec)
    np.random.seed(c['seed'])
    kinds = set()

    def locarr(l, lists=False):
        a = [x[0] for x in l] if dim == 1 else [list(x) for x in l]
        return a if lists else np.array(a, float)
    with L.built(spec, args) as ns, L.quiet():
        insts = [ns['Inf'](), ns['Inf'](), ns['Inf2']()]
        methods = [spec['method'], spec['method'], 'maxlike' if spec['method'] != 'maxlike' else 'chisqr']
        pars = [dict((p['name'], p['default']) for p in spec['pars']) for _ in insts]
        # per instance and predictor: locations, sigmas, values
        mods = [[dict(loc=[list(map(float, l)) for l in p['data']['loc']], sig=list(map(float, p['data']['sig'])),
                      val=list(map(float, p['data']['val']))) for p in spec['preds']] for _ in insts]

        local = set()

        def compare(what):
            for n, i in enumerate(insts):
                for j, p in enumerate(spec['preds']):
                    if (n, j) not in local:
                        ctx.check(getattr(i, p['name']).using_globals(), '%s: %s of instance %d is local', what, p['name'], n)
            for i, ms, par, meth in zip(insts, mods, pars, methods):
                for p, m in zip(spec['preds'], ms):
                    h = getattr(i, p['name'])
                    ctx.check(np.array_equal(np.asarray(h.locns, float), locarr(m['loc'])), '%s: locations of %s are %r, expected %r', what, p['name'], h.locns, m['loc'])
                    ctx.check(np.array_equal(np.asarray(h.sigmas, float), m['sig']), '%s: sigmas of %s are %r, expected %r', what, p['name'], h.sigmas, m['sig'])
                    ctx.check(np.array_equal(np.asarray(h.vals, float), m['val']), '%s: values of %s are %r, expected %r', what, p['name'], h.vals, m['val'])
                    ctx.equal(h.ndata, len(m['val']), what + ': ndata')
                    ctx.equal(h.dimen, dim, what + ': dimen')
                s = dict(spec, preds=[dict(p, data=m) for p, m in zip(spec['preds'], ms)])
                ctx.close(i.score(), L.score(s, par, meth), 1e-10, 1e-10 * L.scale(s, par), what + ': score')

        for o in c['ops']:
            i = insts[o['inst']]
            j = o['pred'] % len(spec['preds'])
            h = getattr(i, spec['preds'][j]['name'])
            m = mods[o['inst']][j]
            par = pars[o['inst']]
            k, what = o['op'], o['op']
            old = list(m['val'])
            fresh = []          # indices of the data that are drawn anew
            if k == 'par':
                nm = names[o['n'] % len(names)]
                par[nm] = o['v'] * L.units(spec)[nm]
                setattr(i, nm, par[nm])
            elif k == 'score':
                i.score()
            elif k == 'local':
                h.localize_data()
                ctx.check(not h.using_globals(), 'using_globals() after localize_data()')
            elif k == 'bad':
                n = len(old)
                a, s = locarr((o['loc'] * (n + 2))[:n + 1]), np.array((o['sig'] * (n + 2))[:n + 1])
                ctx.raises(ValueError, lambda: h.sim(locns=a), 'wrong number of locations')
                ctx.raises(ValueError, lambda: h.sim(sigmas=s), 'wrong number of sigmas')
                ctx.raises(ValueError, lambda: h.sim(a, s[:-1]), 'different numbers of locations and sigmas')
                ctx.raises(ValueError, lambda: h.add_sim(locns=a, sigmas=s[:-1]), 'different numbers of new locations and sigmas')
            else:
                n = len(old)
                given = []
                if k == 'sim':
                    h.sim()
                elif k == 'siml':
                    m['loc'] = [list(x) for x in (o['loc'] * n)[:n]]
                    given = [locarr(m['loc'], o['lists'])]
                    h.sim(locns=given[0])
                elif k == 'sims':
                    m['sig'] = (o['sig'] * n)[:n]
                    given = [list(m['sig']) if o['lists'] else np.array(m['sig'])]
                    h.sim(sigmas=given[0])
                elif k == 'simls':
                    m['loc'], m['sig'] = [list(x) for x in o['loc']], list(o['sig'])
                    given = [locarr(m['loc'], o['lists']), list(m['sig']) if o['lists'] else np.array(m['sig'])]
                    h.sim(*given)
                elif k == 'sim1':
                    w = o['n'] % n
                    kw = {}
                    if 'l' in o['one']:
                        m['loc'][w] = list(o['loc'][0])
                        kw['locn'] = o['loc'][0][0] if dim == 1 else tuple(o['loc'][0])
                    if 's' in o['one']:
                        m['sig'][w] = o['sig'][0]
                        kw['sigma'] = o['sig'][0]
                    h.sim1(w - n if o['neg'] else w, **kw)      # also counted from the end
                    fresh = [w]
                elif k == 'add':
                    m['loc'].append(list(o['loc'][0]))
                    m['sig'].append(o['sig'][0])
                    h.add_sim(o['loc'][0][0] if dim == 1 else tuple(o['loc'][0]), o['sig'][0])
                    fresh = [n]
                else:
                    m['loc'] += [list(x) for x in o['loc']]
                    m['sig'] += list(o['sig'])
                    given = [locarr(o['loc'], o['lists']), list(o['sig']) if o['lists'] else np.array(o['sig'])]
                    h.add_sim(locns=given[0], sigmas=given[1])
                    fresh = list(range(n, n + len(o['sig'])))
                if k.startswith('sim') and k != 'sim1':
                    fresh = list(range(len(m['sig'])))
                ctx.check(not h.using_globals(), 'using_globals() after %s', k)
                v = ctx.arr(np.asarray(h.vals, float), (len(m['sig']),), 'values after ' + k)
                for q in range(len(v)):
                    if q not in fresh:
                        ctx.check(v[q] == old[q], '%s changed datum %d, which was not simulated', k, q)
                p = L.values(spec, par, m['loc'])
                z = (v - p) / np.array(m['sig'])
                tol = 1e-9 * np.abs(p) / np.array(m['sig'])
                for q in fresh:
                    ctx.check(abs(z[q]) < 7. + tol[q], '%s: simulated datum %d is %g sigma from the prediction', k, q, z[q])
                    if q < len(old) and k != 'simls':
                        ctx.check(v[q] != old[q] or abs(p[q]) > 1e6 * m['sig'][q], '%s: datum %d was not simulated anew', k, q)
                if (np.abs(p) < 1e6 * np.array(m['sig'])).all():
                    ctx.check(len(set(np.round(z[fresh], 7))) >= len(fresh) - 1, '%s: repeated deviates %r', k, z[fresh])
                m['val'] = v.tolist()
                # later changes of the arguments do not matter
                for g in given:
                    if not o['lists']:
                        g += 100.
            if k not in ('par', 'score'):
                local.add((o['inst'], j))
            kinds.add(k)
            compare('after ' + what)
    for x, y in zip(args, L.arrays(spec)):
        ctx.check(all(np.array_equal(np.array(u, dtype=object), np.array(v, dtype=object)) for u, v in zip(x, y)), 'the original data were altered')
    for k in sorted(kinds):
        ctx.event(k)
    ctx.event('dim=%d' % dim)
    ctx.nontrivial(bool(kinds - {'par', 'score', 'local', 'bad'}))


@st.composite
def stat_case(draw):
    return dict(n=draw(st.sampled_from([1500, 3000, 3000, 100000])), how=draw(st.sampled_from(['sim', 'sim', 'simls', 'addn', 'sim1', 'add'])), seed=draw(st.integers(0, 2 ** 31)),
                a=draw(gen.fl(-3., 3.)), s=draw(gen.logfl(.1, 10.)), k=draw(st.sampled_from([2., .5, 4.])), dim=draw(st.sampled_from([1, 1, 2])),
                vector=draw(st.booleans()), r=draw(gen.fl(.2, 3.)))


def t_stat(c, ctx):
    """The deviates are independent standard normal, scaled by sigma."""
    n, dim = c['n'], c['dim']
    if c['how'] in ('sim1', 'add'):
        n = 400
    # deterministic spread of locations and sigmas
    t = np.arange(n)
    loc = np.array([5. * np.sin(t * (1.3 + d)) for d in range(dim)]).T
    sig = c['s'] * (1. + c['r'] * np.cos(t * 2.1) ** 2)
    spec = dict(pars=[dict(name='x', default=c['a'], doc=None, k=1, where='signal'), dict(name='y', default=.5, doc=None, k=2, where='signal')],
                preds=[dict(name='d1', data=dict(loc=loc.tolist(), val=[0.] * n, sig=sig.tolist(), form='three'))], dim=dim, method='chisqr',
                kind='linear', vector=c['vector'], src='exec', style=' = ', inherit=False, prior=[(0., 1.)] * 2)
    L1 = loc[:, 0] if dim == 1 else loc

    def run(seed, fac=1.):
        np.random.seed(seed)
        small = dict(spec, preds=[dict(name='d1', data=dict(loc=loc[:1].tolist(), val=[0.], sig=[1.], form='three'))])
        with L.built(spec if c['how'] in ('sim', 'sim1') else small) as ns, L.quiet():
            i = ns['Inf']()
            h = i.d1
            if c['how'] == 'sim':
                h.sim(sigmas=sig * fac)
            elif c['how'] == 'simls':
                h.sim(L1, sig * fac)
            elif c['how'] == 'addn':
                h.add_sim(locns=L1[1:], sigmas=sig[1:] * fac)
            elif c['how'] == 'add':
                for j in range(1, n):
                    h.add_sim(L1[j], sig[j] * fac)
            else:
                for j in range(n):
                    h.sim1(j, sigma=sig[j] * fac)
            v = np.array(h.vals, float)
            p = L.values(spec, dict(x=c['a'], y=.5), loc)
            ctx.equal(v.shape, (n,), 'number of values')
            return ((v - p) / sig)[1:] if c['how'] in ('add', 'addn') else (v - p) / sig
    z = run(c['seed'])
    m = len(z)
    ctx.check(abs(z.mean()) < 6.5 / math.sqrt(m), 'mean of the deviates %g', z.mean())
    ctx.check(abs((z * z).mean() - 1.) < 6.5 * math.sqrt(2. / m), 'variance of the deviates %g', (z * z).mean())
    ctx.check(abs((z[1:] * z[:-1]).mean()) < 6.5 / math.sqrt(m), 'the deviates are correlated: %g', (z[1:] * z[:-1]).mean())
    # Kolmogorov distance from the normal distribution
    from scipy.stats import norm
    u = norm.cdf(np.sort(z))
    ks = max((u - np.arange(m) / m).max(), (np.arange(1, m + 1) / m - u).max())
    # tails
    for t in (2., 3., 3.5):
        e = 2. * m * norm.sf(t)
        nt = int((np.abs(z) > t).sum())
        ctx.check(abs(nt - e) < 6.5 * math.sqrt(e) + 6., '%d of %d deviates beyond %g sigma, %.3g are expected', nt, m, t, e)
    if m > 30000:
        ctx.check(3.6 < np.abs(z).max() < 7.5, 'the largest of %d deviates is %g', m, np.abs(z).max())
    ctx.check(ks * math.sqrt(m) < 3.3, 'the deviates are not normal (Kolmogorov distance %g)', ks)
    z2 = run(c['seed'])
    ctx.allclose(z2, z, 0., 1e-9, 'simulation repeated with the same seed')
    z3 = run(c['seed'], c['k'])
    ctx.allclose(z3, c['k'] * z, 0., 1e-9 * (1. + c['k']), 'simulation with sigmas scaled by %g' % c['k'])
    z4 = run(c['seed'] + 1)
    ctx.check(not np.allclose(z4, z), 'the simulation does not depend on the seed')
    ctx.event(c['how'])
    ctx.nontrivial()


check = vh.Check('P06', [
    vh.Sub('histories', hist_case(), t_hist, quick=1500, thorough=40000, shards=5, rule='some data were simulated'),
    vh.Sub('statistics', stat_case(), t_stat, quick=60, thorough=1500, shards=2, rule='all'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['statistical limits are 6.5 standard deviations (fixed seeds: the outcome is reproducible)'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
