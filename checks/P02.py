"""P02: parameter state machine (fixed / varying / stepping) against a reference model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import pielib as L
import math
import numpy as np
from hypothesis import strategies as st

U, F, S, V = 'undef', 'fixed', 'stepping', 'varying'
val = st.one_of(gen.fl(-10., 10.), st.sampled_from([0., 1., -1., 5., 10., -10.])).map(lambda v: v if abs(v) > 1e-9 else 0.)
opt = st.one_of(st.none(), val)
OPS = ['assign', 'assign', 'fix', 'fix', 'freeze', 'set', 'set', 'range', 'vary', 'vary', 'vary', 'step', 'step', 'logstep',
       'next', 'prev', 'first', 'last', 'inext', 'inext', 'inext', 'reset', 'getset', 'restore', 'restore_bad', 'check',
       'access', 'score', 'listen', 'unlisten']


SUITED = {F: ['vary', 'vary', 'step', 'step', 'logstep', 'fix', 'assign', 'getset', 'score'],
          V: ['set', 'set', 'set', 'check', 'freeze', 'vary', 'step', 'fix', 'getset', 'restore', 'assign'],
          S: ['next', 'next', 'next', 'prev', 'prev', 'last', 'first', 'inext', 'inext', 'inext', 'inext', 'freeze', 'vary', 'step']}


@st.composite
def op(draw, names, sts):
    """One operation; two in three suit the (approximate) status of the parameter."""
    o = dict(inst=draw(st.sampled_from([0, 0, 0, 1, 2])), par=draw(st.sampled_from(names)))
    key = (o['inst'], o['par'])
    k = o['op'] = draw(st.sampled_from(SUITED[sts.get(key, F)] if draw(st.integers(0, 2)) else OPS))
    sts[key] = {'vary': V, 'step': S, 'logstep': S, 'fix': F, 'freeze': F, 'assign': F}.get(k, sts.get(key, F))
    if k in ('assign', 'fix', 'set'):
        o['v'] = draw(val)
        # at and just beyond the limits, when there are limits
        o['edge'] = draw(st.sampled_from([None] * 6 + ['lo', 'hi', 'lo-', 'hi+', 'lo--', 'hi++']))
    elif k == 'range':
        a, b = draw(val), draw(val)
        o['r'] = [a, b if b != a else a + 1.]
        o['tuple'] = draw(st.booleans())
    elif k == 'vary':
        o['start'] = draw(opt)
        o['delta'] = draw(st.one_of(st.none(), gen.logfl(1e-3, 10.)))
        a, b = draw(val), draw(val)
        o['r'] = draw(st.sampled_from([None, [a, b if b != a else a + 1.], [-20., 20.], [20., -20.]]))
    elif k in ('step', 'logstep'):
        o['lo'], o['hi'], o['n'] = draw(opt), draw(opt), draw(st.one_of(st.integers(2, 5), st.integers(2, 5), st.integers(2, 40), st.just(10)))
        o['lin'] = draw(st.booleans())
        if k == 'logstep' and draw(st.booleans()):
            o['lo'], o['hi'] = draw(gen.logfl(1e-3, 1e3)), draw(gen.logfl(1e-3, 1e3))
            if draw(st.booleans()):
                o['lo'], o['hi'] = -o['lo'], -o['hi']
        if o['lo'] is not None and o['lo'] == o['hi']:
            o['hi'] = o['lo'] * 2 + 1.
    elif k == 'inext':
        o['times'] = draw(st.sampled_from([1, 1, 2, 5, 30, 90]))
    elif k == 'check':
        o['pc'] = draw(gen.fl(0., 50.))
    return o


@st.composite
def case(draw):
    spec = draw(L.model(npar=(1, 4), npred=(1, 1), nmax=2, dims=(1,), big=4, units=True))
    names = [p['name'] for p in spec['pars']]
    unit = L.units(spec)
    sts = {}
    ops = [draw(op(names, sts)) for _ in range(draw(st.integers(1, 25)))]
    for o in ops:       # in the units of the parameter
        u = unit[o['par']]
        for k in ('v', 'start', 'delta', 'lo', 'hi'):
            if o.get(k) is not None:
                o[k] *= u
        if o.get('r'):
            o['r'] = [v * u for v in o['r']]
    return dict(spec=spec, ops=ops)


class Par(object):
    def __init__(self, p):
        self.name, self.default = p['name'], p['default']
        self.doc = 'Undocumented real parameter.' if p['doc'] is None else p['doc']
        self.status, self.v, self.tol = U, None, 0.
        self.bounded = False
        self.lo = self.hi = None
        self.delta, self.dtol = None, 0.
        self.num = self.n = None

    def inside(self, v):
        return not self.bounded or self.lo <= v <= self.hi

    def set(self, v, tol=0.):
        self.v, self.tol = v, tol

    def at(self, k):
        self.num = k
        if k == 0:
            self.set(self.slo)
        elif k == self.n - 1:
            self.set(self.shi)
        elif self.log:
            self.set(self.slo * (self.shi / self.slo) ** (k / (self.n - 1.)))
            self.tol = 1e-10 * abs(self.v)
        else:
            self.set(self.slo + k * (self.shi - self.slo) / (self.n - 1.))
            self.tol = 1e-10 * (abs(self.slo) + abs(self.shi))


class Listener(object):
    def __init__(self):
        self.notes = []

    def _on_param_status_change(self, param, old, new):
        pass

    def _on_param_value_change(self, param):
        self.notes.append(param.name)


class Inst(object):
    """Reference model of the parameters of one inference instance."""

    def __init__(self, spec):
        self.p = dict((q['name'], Par(q)) for q in spec['pars'])
        self.lists = {F: [], S: [], V: []}
        self.drx = {}

    def status(self, q, new):
        old = q.status
        q.status = new
        if old != new:
            if old != U:
                self.lists[old].remove(q.name)
            self.lists[new].append(q.name)
        if new == S or old == S:
            self.reset()

    def reset(self):
        for nm in self.lists[S]:
            self.p[nm].at(0)
            self.drx[nm] = 1

    def touch(self, q):
        if q.status == U:
            q.set(q.default)
            self.status(q, F)

    def next(self):
        """False when the grid is exhausted (then reset)."""
        for nm in self.lists[S]:
            q = self.p[nm]
            k = q.num + self.drx[nm]
            if 0 <= k < q.n:
                q.at(k)
                return True
            if nm == self.lists[S][-1]:
                self.reset()
                return False
            self.drx[nm] = -self.drx[nm]


def compare(ctx, inf, m, what):
    from inference.pie import param
    for key, attr in ((F, 'fixed_params'), (V, 'varying_params'), (S, 'stepping_params')):
        got = [q.name for q in getattr(inf, attr)]
        ctx.check(got == m.lists[key], '%s: %s are %r, expected %r', what, attr, got, m.lists[key])
    for q in m.p.values():
        if q.status == U:
            continue
        x = getattr(inf, q.name)
        ctx.check(abs(float(x) - q.v) <= q.tol, '%s: %s is %r, expected %r', what, q.name, float(x), q.v)
        ctx.check(float(x.get_value()) == float(x), 'get_value differs from the value')
        ctx.equal(x.status, {F: param.fixed, S: param.stepping, V: param.varying}[q.status], '%s: status of %s' % (what, q.name))
        if q.status == V:
            ctx.check(abs(x.delta - q.delta) <= q.dtol, '%s: scale of %s is %r, expected %r', what, q.name, x.delta, q.delta)
        if q.bounded:
            ctx.check((x.lo, x.hi) == (q.lo, q.hi), '%s: range of %s is %r, expected %r', what, q.name, (x.lo, x.hi), (q.lo, q.hi))
        if q.status == S:
            ctx.equal(x.step_index(), q.num, '%s: step index of %s' % (what, q.name))
    ctx.equal(inf.step_nums(), tuple(m.p[n].num for n in m.lists[S]), what + ': step_nums')
    ctx.equal(inf.step_shape(), tuple(m.p[n].n for n in m.lists[S]), what + ': step_shape')


def t_state(c, ctx):
    from inference.pie.param import ParamError, ParamRangeError
    from inference.pie.signalmodel import StopStepping
    spec = c['spec']
    refuse = (ParamError, ValueError, RuntimeError)
    kinds = set()
    with L.built(spec) as ns, L.quiet():
        infs = [ns['Inf'](), ns['Inf'](), ns['Inf2']()]
        ms = [Inst(spec) for _ in infs]
        saved = [None] * 3
        ears = {}
        for k, o in enumerate(c['ops']):
            i, name = infs[o['inst']], o['par']
            m = ms[o['inst']]
            q = m.p[name]
            kind = o['op']
            if o.get('edge') and q.bounded:
                e = q.lo if o['edge'][:2] == 'lo' else q.hi
                out = -np.inf if o['edge'][:2] == 'lo' else np.inf
                if len(o['edge']) == 3:
                    e = float(np.nextafter(e, out))
                elif len(o['edge']) == 4:
                    e = e + math.copysign(1e-9 * (q.hi - q.lo), out)
                o = dict(o, v=e)
            what = 'step %d (%s %s)' % (k, kind, name)
            for f in infs:
                f.__dict__['notes'] = []
            for e in ears.values():
                e[0].notes = []
            ok = True
            before = q.v
            if kind == 'assign':
                if q.status != U and not q.inside(o['v']):
                    ok = False
                    ctx.raises(ParamRangeError, lambda: setattr(i, name, o['v']), what)
                else:
                    setattr(i, name, o['v'])
                    q.set(o['v'])
                    m.status(q, F)
                    expect = True
            else:
                if kind not in ('inext', 'reset', 'getset', 'restore', 'restore_bad', 'score'):
                    m.touch(q)
                    x = getattr(i, name)
                if kind == 'fix':
                    if not q.inside(o['v']):
                        ok = False
                        ctx.raises(ParamRangeError, lambda: x.fix(o['v']), what)
                    else:
                        x.fix(o['v'])
                        q.set(o['v'])
                        m.status(q, F)
                elif kind == 'freeze':
                    x.fix()
                    m.status(q, F)
                elif kind == 'set':
                    if q.status != V or not q.inside(o['v']):
                        ok = False
                        ctx.raises(ParamError if q.status != V else ParamRangeError, lambda: x.set_value(o['v']), what)
                    else:
                        x.set_value(o['v'])
                        q.set(o['v'])
                elif kind == 'range':
                    if o['tuple']:
                        x.range(tuple(o['r']))
                    else:
                        x.range(*o['r'])
                    q.bounded, q.lo, q.hi = True, min(o['r']), max(o['r'])
                elif kind == 'vary':
                    args = dict((a, b) for a, b in (('start', o['start']), ('delta', o['delta']),
                                                    ('range', None if o['r'] is None else tuple(o['r']))) if b is not None)
                    lo, hi = (min(o['r']), max(o['r'])) if o['r'] else (q.lo, q.hi)
                    if (o['r'] is None and not q.bounded) or (o['delta'] is None and q.delta is None):
                        ok = False
                        ctx.raises(refuse, lambda: x.vary(**args), what)
                    elif o['start'] is not None and not lo <= o['start'] <= hi:
                        ok = False
                        ctx.raises(ParamRangeError, lambda: x.vary(**args), what)
                    else:
                        x.vary(**args)
                        q.bounded, q.lo, q.hi = True, lo, hi
                        if o['delta'] is not None:
                            q.delta, q.dtol = o['delta'], 0.
                        if o['start'] is not None:
                            q.set(o['start'])
                        m.status(q, V)
                elif kind in ('step', 'logstep'):
                    lo, hi = o['lo'], o['hi']
                    args = (lo, hi, o['n'])
                    f = x.logstep if kind == 'logstep' else (x.linstep if o['lin'] else x.step)
                    if (lo is not None and not q.inside(lo)) or (hi is not None and not q.inside(hi)):
                        ok = False
                        ctx.raises(ParamRangeError, lambda: f(*args), what)
                    else:
                        lo2, hi2 = q.lo if lo is None else lo, q.hi if hi is None else hi
                        if lo2 is None or hi2 is None or (kind == 'logstep' and lo2 * hi2 <= 0.):
                            ok = False
                            ctx.raises(refuse, lambda: f(*args), what)
                        elif lo2 == hi2:
                            continue
                        else:
                            if o['n'] == 10 and o['lin']:      # by default
                                f(*args[:2])
                            elif lo is None and hi is None:
                                f(n=o['n'])
                            elif lo is None:
                                f(hi=hi, n=o['n'])
                            elif hi is None:
                                f(lo, n=o['n'])
                            else:
                                f(*args)
                            q.slo, q.shi, q.n, q.log = lo2, hi2, o['n'], kind == 'logstep'
                            if kind == 'step':
                                q.delta = (hi2 - lo2) / (o['n'] - 1.)
                                q.dtol = 1e-12 * abs(q.delta)
                            q.at(0)
                            m.status(q, S)
                elif kind in ('next', 'prev'):
                    f = x.next_step if kind == 'next' else x.prev_step
                    if q.status != S:
                        ok = False
                        ctx.raises(ParamError, f, what)
                    else:
                        j = q.num + (1 if kind == 'next' else -1)
                        if 0 <= j < q.n:
                            f()
                            q.at(j)
                        else:
                            ok = False
                            ctx.raises(ParamRangeError, f, what)
                elif kind in ('first', 'last'):
                    f = x.first_step if kind == 'first' else x.last_step
                    if q.status != S:
                        ok = False
                        ctx.raises(refuse, f, what)
                        ctx.raises(refuse, x.step_index, what)
                    else:
                        f()
                        q.at(0 if kind == 'first' else q.n - 1)
                elif kind == 'inext':
                    if m.lists[S]:
                        for _ in range(o['times']):
                            if m.next():
                                i.next_step()
                            else:
                                ctx.raises(StopStepping, i.next_step, what)
                                kinds.add('exhausted')
                            ctx.equal(i.step_nums(), tuple(m.p[n].num for n in m.lists[S]), what + ': step_nums')
                elif kind == 'reset':
                    i.reset_steps()
                    m.reset()
                elif kind == 'getset':
                    pv = i.get_params()
                    for nm in i.params:
                        m.touch(m.p[nm])
                    saved[o['inst']] = (pv, [(n, w.v, w.tol) for n, w in m.p.items()])
                    ctx.equal(list(pv.names), list(i.params), what + ': names')
                    for n, w in m.p.items():
                        v = getattr(pv, n)
                        ctx.check(type(v) is float and abs(v - w.v) <= w.tol, '%s: stored %s is %r, expected %r', what, n, v, w.v)
                        ctx.equal(pv.docs[n], w.doc, what + ': doc of ' + n)
                        ctx.check('%s = %s' % (n, v) in str(pv), 'str() of the stored values lacks %s', n)
                    ctx.raises(ParamError, lambda: pv.store(name, getattr(i, name)), 'storing a parameter twice')
                elif kind == 'restore':
                    if saved[o['inst']]:
                        pv, vals = saved[o['inst']]
                        for nm in i.params:
                            getattr(i, nm)
                            m.touch(m.p[nm])
                        for n, v, t in vals:
                            ctx.check(abs(getattr(pv, n) - v) <= t, 'the stored value of %s changed', n)
                        if m.lists[S]:
                            ctx.raises(ParamError, lambda: i.set_params(pv), what)
                            kinds.add('restore!stepping')
                        elif all(m.p[n].inside(getattr(pv, n)) for n, v, t in vals):
                            i.set_params(pv)
                            for n, v, t in vals:
                                m.p[n].set(getattr(pv, n))
                            kinds.add('restored')
                        else:
                            ctx.raises(ParamRangeError, lambda: i.set_params(pv), what)
                            kinds.add('restore!range')
                elif kind == 'restore_bad':
                    for nm in i.params:
                        m.touch(m.p[nm])
                    pv = i.get_params()
                    if m.lists[S] and all(w.inside(w.v) and (w.status != F or w.inside(float(getattr(i, w.name)))) for w in m.p.values()):
                        ctx.raises(ParamError, lambda: i.set_params(pv), what)
                elif kind == 'check':
                    if q.status != V:
                        ok = False
                        ctx.raises(refuse, lambda: x.check(o['pc']), what)
                    elif q.hi > q.lo:
                        pc = 100. * min(q.v - q.lo, q.hi - q.v) / (q.hi - q.lo)
                        if abs(pc - o['pc']) > 1e-6:
                            ctx.equal(bool(x.check(o['pc'])), pc >= o['pc'], what)
                elif kind == 'access':
                    v = float(x)
                    ctx.check(isinstance(x, float) and 2 * x == 2 * v and x + 1 == v + 1 and x.copy_value() == v
                              and type(x.copy_value()) is float, 'the value does not behave as a float')
                    ctx.equal(x.doc, q.doc, what + ': doc')
                    ctx.check(name in x.show() and str(v) in x.show() and q.doc in x.show(), 'show() gave %r', x.show())
                    with L.quiet() as out:
                        i.show()
                        i.show_status()
                    for nm in i.params:
                        m.touch(m.p[nm])
                        ctx.check(nm in out.getvalue(), 'show() lacks %s', nm)
                elif kind == 'listen':
                    e = ears.setdefault((o['inst'], name), [Listener(), False])
                    x.add_listener(e[0])
                    if o['inst']:
                        x.add_listener(e[0])        # once is enough
                    e[1] = True
                elif kind == 'unlisten':
                    e = ears.setdefault((o['inst'], name), [Listener(), False])
                    x.del_listener(e[0])
                    e[1] = False
                elif kind == 'score':
                    i.score()
                    for nm in [w['name'] for w in spec['pars']]:
                        m.touch(m.p[nm])
            # all instances agree with their models
            for f, g in zip(infs, ms):
                compare(ctx, f, g, what)
            # notifications: every change is announced, to the owner only
            for j, f in enumerate(infs):
                if j != o['inst']:
                    ctx.check(not f.__dict__['notes'], '%s: another instance was notified', what)
            notes = i.__dict__['notes']
            for (j, nm), (e, on) in ears.items():
                if kind in ('listen', 'unlisten') or not hasattr(i, '_on_param_value_change'):
                    continue        # the first access, before the listener joined, announces the default
                want = len([1 for n, v in infs[j].__dict__['notes'] if n == nm])
                ctx.check(len(e.notes) == (want if on else 0) and set(e.notes) <= {nm}, '%s: a listener to %s (%s) was told of %r; the owner %d times',
                          what, nm, 'added' if on else 'removed', e.notes, want)
            if ok and kind in ('assign', 'fix', 'set', 'step', 'logstep', 'next', 'prev'):
                ctx.check(any(n == name and abs(v - q.v) <= q.tol for n, v in notes), '%s: no notification of the change', what)
            kinds.add(kind + ('' if ok else '!'))
    for k in sorted(kinds):
        ctx.event(k)
    ctx.nontrivial(len(kinds) >= 4)


@st.composite
def map_case(draw):
    a = draw(st.one_of(gen.sgnfl(1e-3, 1e6), st.just(0.)))
    w = draw(gen.logfl(1e-3, 1e6))
    u = draw(gen.unit())
    return dict(lo=a * u, w=w * u, us=[draw(st.one_of(gen.fl(-40., 40.), gen.fl(-1000., 1000.), st.sampled_from([709.5, -709.5, 750., -750.])))
                               for _ in range(6)], f=draw(gen.fl(.001, .999)))


def t_map(c, ctx):
    """The mapping used for bounded optimisation stays in range, is monotonic and inverts."""
    from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference

    class M(SignalModel):
        p = RealParam(1.)

        def signal(self, x):
            return self.p * x
    with L.quiet():
        class D(PredictorSet):
            d = SampledGaussian(np.ones(1), np.ones(1), np.ones(1))

        class I(ChisqrInference, M, D):
            pass
        i = I()
        lo, hi = c['lo'], c['lo'] + c['w']
        mid = lo + c['f'] * c['w']
        i.p.vary(mid, .1 * c['w'], (lo, hi))
        i.map_bounds()
        seen = []
        if not hasattr(i, '_score') or not hasattr(i.p, '_unbounded_get_value'):
            return      # internal; nothing to call under another name
        for u in c['us']:
            i._score([u])
            v = float(i.p)
            ctx.check(lo <= v <= hi, 'mapped value %r for %r leaves the range [%r, %r]', v, u, lo, hi)
            seen.append((u, v))
        seen.sort()
        for (u, v), (u2, v2) in zip(seen, seen[1:]):
            ctx.check(v2 >= v - 1e-12 * (abs(lo) + abs(hi)), 'the mapping is not monotonic at %r, %r', u, u2)
        # moderate values map back and forth
        if abs(lo) <= 1e3 * c['w']:
            i.p.set_value(mid)
            u = i.p._unbounded_get_value()
            i._score([u])
            ctx.close(float(i.p), mid, 0., 1e-9 * c['w'] + 1e-12 * abs(lo), 'value mapped forth and back')
    ctx.nontrivial()


check = vh.Check('P02', [
    vh.Sub('histories', case(), t_state, quick=2500, thorough=60000, shards=6, rule='four or more kinds of operation took place'),
    vh.Sub('mapping', map_case(), t_map, quick=500, thorough=5000, shards=1, rule='all'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['1..4 parameters, three instances of two classes, histories of up to 25 operations'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
