"""P03: evaluation on grids of stepped parameters."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import pielib as L
import math
import numpy as np
from hypothesis import strategies as st


@st.composite
def axis(draw, nmax=5, unit=1.):
    n = draw(st.integers(2, nmax))
    if draw(st.integers(0, 2)) == 0:
        s = draw(st.sampled_from([1., -1.]))
        lo, hi = s * draw(gen.logfl(.05, 5.)), s * draw(gen.logfl(.05, 5.))
        kind = 'log'
    else:
        lo, hi = draw(gen.fl(-5., 5.)), draw(gen.fl(-5., 5.))
        kind = draw(st.sampled_from(['lin', 'lin', 'step']))
    if lo == hi:
        hi = lo * 2. + (0. if kind == 'log' else 1.)
    return dict(kind=kind, lo=lo * unit, hi=hi * unit, n=n, unit=unit, ranged=draw(st.sampled_from([None, None, 'wide', 'exact'])))


@st.composite
def grid_case(draw):
    spec = draw(L.model(npar=(1, 4), npred=(1, 2), nmax=4, big=20, units=True))
    names = [p['name'] for p in spec['pars']]
    unit = L.units(spec)
    k = draw(st.integers(1, min(3, len(names)))) if draw(st.integers(0, 9)) else min(5, len(names))
    steps = [[nm, draw(axis([0, draw(st.sampled_from([7, 7, 7, 80])), 5, 5, 3, 2][k], unit[nm]))] for nm in draw(st.permutations(names))[:k]]
    hist = [[draw(st.sampled_from(['next', 'next', 'score', 'pnext', 'plast', 'fail', 'fail', 'grid', 'restep', 'fixed', 'unstep', 'reset'])),
             draw(st.integers(0, 40)), draw(gen.fl(-4., 4.))] for _ in range(draw(st.integers(0, 6)))]
    return dict(spec=spec, steps=steps, hist=hist, vals=[draw(gen.fl(-4., 4.)) * unit[nm] for nm in names],
                vargrid=draw(st.booleans()), nlog=draw(st.sampled_from([None, None, 1, 3])))


def values(a):
    k = np.arange(a['n']) / (a['n'] - 1.)
    if a['kind'] == 'log':
        v = a['lo'] * (a['hi'] / a['lo']) ** k
    else:
        v = a['lo'] + k * (a['hi'] - a['lo'])
    v[0], v[-1] = a['lo'], a['hi']
    return v


def set_step(i, nm, a):
    p = getattr(i, nm)
    if a['ranged'] == 'wide':
        p.range(min(a['lo'], a['hi']) - a['unit'], max(a['lo'], a['hi']) + 2. * a['unit'])
    elif a['ranged'] == 'exact':
        p.range((a['lo'], a['hi']))
    elif p.bounded:
        p.range(-1e3 * a['unit'], 1e3 * a['unit'])
    dict(log=p.logstep, lin=p.linstep, step=p.step)[a['kind']](a['lo'], a['hi'], a['n'])


def reference(spec, axes, par):
    """Score over the grid; axes: [(name, axis)] in stepping order."""
    vs = [values(a) for _, a in axes]
    out = np.empty(tuple(len(v) for v in vs))
    tol = 0.
    for ind in np.ndindex(*out.shape):
        p = dict(par)
        for (nm, _), v, k in zip(axes, vs, ind):
            p[nm] = v[k]
        out[ind] = L.score(spec, p)
        tol = max(tol, L.scale(spec, p))
    return out, 1e-10 * tol


def check_grid(ctx, spec, i, axes, par, g, what):
    ref, tol = reference(spec, axes, par)
    ctx.equal(g.ndim, len(axes), what + ': ndim')
    ctx.equal(tuple(g.shape), ref.shape, what + ': shape')
    ctx.equal(np.shape(g.values), ref.shape, what + ': shape of the values')
    ctx.check(not np.isnan(g.values).any(), '%s: %d of %d values were not evaluated', what, np.isnan(g.values).sum(), ref.size)
    ctx.allclose(g.values, ref, 1e-10, tol, what + ': values')
    want = [(nm, a['lo'], a['hi'], a['n'], 1 if a['kind'] == 'log' else 0) for nm, a in axes]
    ctx.check([tuple(x) for x in g.axes] == want, '%s: axes are %r, expected %r', what, g.axes, want)
    s = str(g)
    for nm, lo, hi, n, t in want:
        ctx.check('%s in [%g,%g]; %d %s steps' % (nm, lo, hi, n, 'log' if t else 'linear') in s, '%s: description lacks %s: %r', what, nm, s)
    at_start(ctx, i, axes, what)


def at_start(ctx, i, axes, what):
    ctx.equal(i.step_nums(), (0,) * len(axes), what + ': step_nums afterwards')
    for nm, a in axes:
        ctx.check(float(getattr(i, nm)) == a['lo'], '%s: %s is %r afterwards, not its first value %r', what, nm, float(getattr(i, nm)), a['lo'])


def t_grid(c, ctx):
    from inference.pie.signalmodel import StopStepping
    spec = c['spec']
    names = [p['name'] for p in spec['pars']]
    unit = L.units(spec)
    with L.built(spec) as ns, L.quiet():
        i, other = ns['Inf'](), ns['Inf']()
        par = {}
        for nm, v in zip(names, c['vals']):
            par[nm] = v
            setattr(i, nm, v)
        axes = [tuple(s) for s in c['steps']]
        for nm, a in axes:
            set_step(i, nm, a)
        kinds = set()
        for h, k, v in c['hist']:
            if h == 'next':
                for _ in range(k % 9 + 1):
                    try:
                        i.next_step()
                    except StopStepping:
                        at_start(ctx, i, axes, 'after the last step')
            elif h == 'score':
                i.score()
            elif h == 'reset':
                i.reset_steps()
                at_start(ctx, i, axes, 'after reset_steps')
            elif h == 'pnext':
                try:
                    getattr(i, axes[k % len(axes)][0]).next_step()
                except Exception as e:
                    ctx.check(type(e).__name__ == 'ParamRangeError', 'stepping raised %r', e)
            elif h == 'plast':
                getattr(i, axes[k % len(axes)][0]).last_step()
            elif h == 'fail':
                i.__dict__['fail_at'] = i.__dict__.get('ncalls', 0) + 1 + k
                try:
                    i.fit()
                except KeyError:
                    kinds.add('failed')
                i.__dict__['fail_at'] = None
            elif h == 'grid':
                check_grid(ctx, spec, i, axes, par, i.fit(), 'earlier grid')
            elif h == 'restep':       # new steps for a stepped parameter keep its place
                j = k % len(axes)
                a = dict(axes[j][1], n=2 + k % 3)
                set_step(i, axes[j][0], a)
                axes[j] = (axes[j][0], a)
                at_start(ctx, i, axes, 'after new steps for ' + axes[j][0])
            elif h == 'fixed':
                rest = [n for n in names if n not in [x for x, _ in axes]]
                if rest:
                    nm = rest[k % len(rest)]
                    if getattr(i, nm).bounded:
                        getattr(i, nm).range(-1e3 * unit[nm], 1e3 * unit[nm])
                    v *= unit[nm]
                    setattr(i, nm, v)
                    par[nm] = v
            elif h == 'unstep' and len(axes) > 1:
                j = k % len(axes)
                nm = axes.pop(j)[0]
                if getattr(i, nm).bounded:
                    getattr(i, nm).range(-1e3 * unit[nm], 1e3 * unit[nm])
                v *= unit[nm]
                getattr(i, nm).fix(v)
                par[nm] = v
                at_start(ctx, i, axes, 'after fixing ' + nm)
            kinds.add(h)
        n0 = i.__dict__.get('ncalls', 0)
        kw = {}
        if c['vargrid']:
            kw['vargrid'] = True
        if c['nlog']:
            kw['nlog'] = c['nlog']
        g = i.fit(**kw)
        check_grid(ctx, spec, i, axes, par, g, 'grid')
        ctx.equal(i.step_shape(), tuple(a['n'] for _, a in axes), 'step_shape')
        g2 = i.fit()
        ctx.check(np.allclose(g2.values, g.values, 1e-12, 0.) and g2.values is not g.values, 'a repeated grid differs from the first')
        p0 = dict((p['name'], p['default']) for p in spec['pars'])
        ctx.close(other.score(), L.score(spec, p0), 1e-10, 1e-10 * L.scale(spec, p0), 'score of another instance')
    ctx.nontrivial(bool(kinds & {'next', 'fail', 'pnext', 'plast', 'restep', 'unstep'}) or len(axes) > 1)
    ctx.event('ndim=%d' % len(axes))
    for k in sorted(kinds):
        ctx.event(k)


@st.composite
def walk_case(draw):
    k = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 5]))
    return dict(axes=[draw(axis([0, draw(st.sampled_from([12, 12, 150])), 12, 5, 5, 3][k], draw(gen.unit()))) for _ in range(k)], rounds=draw(st.sampled_from([1, 1, 2, 3])),
                nfix=draw(st.integers(0, 1)))


def t_walk(c, ctx):
    """The zig-zag walk visits every grid point once by single steps and then starts again."""
    from inference.pie.signalmodel import StopStepping
    names = ['x', 'y', 'amp', 'q', 'z', 'a'][:len(c['axes']) + c['nfix']]
    spec = dict(pars=[dict(name=n, default=.5, doc=None, k=j, where='signal') for j, n in enumerate(names)],
                preds=[dict(name='d1', data=dict(loc=[[1.]], val=[1.], sig=[1.], form='three'))], dim=1, method='chisqr', kind='linear',
                vector=True, src='exec', style=' = ', inherit=False, prior=[(0., 1.)] * len(names))
    with L.built(spec) as ns, L.quiet():
        i = ns['Inf']()
        for nm, a in zip(names, c['axes']):
            set_step(i, nm, a)
        names = names[:len(c['axes'])]
        vs = [values(a) for a in c['axes']]
        shape = tuple(len(v) for v in vs)
        ctx.equal(i.step_shape(), shape, 'step_shape')
        for r in range(c['rounds']):
            seen = set()
            last = None
            while True:
                ind = i.step_nums()
                ctx.check(len(ind) == len(shape) and all(0 <= k < n for k, n in zip(ind, shape)), 'step_nums %r outside the grid %r', ind, shape)
                ctx.check(ind not in seen, 'grid point %r visited twice', ind)
                seen.add(ind)
                if last is None:
                    ctx.equal(ind, (0,) * len(shape), 'first grid point')
                else:
                    ctx.check(sum(abs(p - q) for p, q in zip(ind, last)) == 1, 'the walk jumps from %r to %r', last, ind)
                for nm, v, k, a in zip(names, vs, ind, c['axes']):
                    x = float(getattr(i, nm))
                    if k in (0, a['n'] - 1):
                        ctx.check(x == v[k], '%s at step %d is %r, not the end point %r', nm, k, x, v[k])
                    else:
                        ctx.close(x, v[k], 1e-11, 1e-11 * max(abs(a['lo']), abs(a['hi'])), '%s at step %d' % (nm, k))
                last = ind
                try:
                    i.next_step()
                except StopStepping:
                    break
                ctx.check(len(seen) < int(np.prod(shape)), 'the walk does not stop')
            ctx.equal(len(seen), int(np.prod(shape)), 'number of grid points visited')
            ctx.equal(i.step_nums(), (0,) * len(shape), 'step_nums after the walk')
    ctx.nontrivial(len(shape) > 1)
    ctx.event('ndim=%d' % len(shape))


check = vh.Check('P03', [
    vh.Sub('grid', grid_case(), t_grid, quick=1600, thorough=40000, shards=5, rule='several stepped parameters, or a history of steps, failures or changed steps before the grid'),
    vh.Sub('walk', walk_case(), t_walk, quick=600, thorough=8000, shards=2, rule='two or more stepped parameters'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['1..5 stepped parameters of up to 12 steps (150 for one)', 'faults: an exception from the model at a generated call'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
