"""P14: ranked lists of labelled maxima, and Gaussian peak estimation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import numpy as np
from hypothesis import strategies as st

val = st.one_of(st.integers(-5, 5).map(float), gen.fl(-30., 30.), gen.fl(-1000., 1000.))


@st.composite
def list_case(draw):
    ops = []
    for _ in range(draw(gen.skewint(1, 40 if draw(st.integers(0, 11)) else 150))):
        k = draw(st.integers(0, 11))
        if k <= 8:
            ops.append(['u', draw(val)])
        elif k == 9:
            ops.append(['r', draw(gen.logfl(1.01, 1e8))])
        elif k == 10:
            ops.append(['d', draw(st.integers(0, 6))])
        else:
            ops.append(['s', draw(st.integers(0, 6)), draw(st.integers(0, 99))])
    return dict(nmax=draw(st.sampled_from([None, None, 1, 2, 3, 4, 5, 6, 10, 30])),
                dyn=draw(st.one_of(st.none(), gen.logfl(1.01, 1e12))), ops=ops)


def t_list(c, ctx):
    from inference.grid.grid1d import LabeledMaxList
    nmax, dyn = c['nmax'], c['dyn']
    kw = {}
    if nmax is not None:
        kw['nmax'] = nmax
    if dyn is not None:
        kw['dynrange'] = dyn
    l = LabeledMaxList(**kw)
    other = LabeledMaxList(3)
    model = []
    dropped = 0
    ctx.equal(len(l), 0, 'initial length')

    def prune(m, ld):
        """Entries within the range of the top; (kept, near-boundary?)"""
        if not m:
            return m, False
        top = m[0][0]
        near = any(abs(top - q - ld) < 1e-9 for q, _ in m)
        return [e for e in m if not top - e[0] > ld], near
    for t, op in enumerate(c['ops']):
        if op[0] == 'u':
            q = op[1]
            lab = (t, 'lab')
            l.update(q, lab)
            m = model + [(q, lab)]
            m = sorted(m, key=lambda e: -e[0])       # stable: earlier entries first
            if dyn is not None:
                m, near = prune(m, np.log(dyn))
                if near:
                    return
            if nmax is not None:
                m = m[:nmax]
            dropped += len(model) + 1 - len(m)
            model = m
        elif op[0] == 'r':
            l.limitRange(op[1])
            m, near = prune(model, np.log(op[1]))
            if near:
                return
            dropped += len(model) - len(m)
            model = m
        elif op[0] == 'd':
            if op[1] < len(model):
                del l[op[1]]
                del model[op[1]]
        elif op[0] == 's':
            if op[1] < len(model):
                e = (model[op[1]][0], (op[2], 'relabelled'))
                l[op[1]] = e
                model[op[1]] = e
        ctx.equal(len(l), len(model), 'length after step %d' % t)
        got = [l[i] for i in range(len(l))]
        ctx.check(got == model, 'after step %d %r the list is %r, expected %r', t, op, got, model)
        ctx.check([e for e in l] == model, 'iteration differs from indexing')
    ctx.equal(len(other), 0, 'another list')
    other.update(1., 'a')
    ctx.equal(len(l), len(model), 'length after another list was updated')
    ctx.nontrivial(dropped > 0 and len(model) >= 2)
    ctx.event('dropped' if dropped else 'none_dropped')


# batch law: without removals the list is a pure function of the multiset
@st.composite
def batch_case(draw):
    vals = draw(st.lists(val, min_size=2, max_size=40, unique=True))
    return dict(vals=vals, perm=draw(st.permutations(range(len(vals)))),
                nmax=draw(st.sampled_from([None, 1, 2, 4, 8])),
                dyn=draw(st.one_of(st.none(), gen.logfl(1.1, 1e12))))


def t_batch(c, ctx):
    from inference.grid.grid1d import LabeledMaxList
    v = c['vals']
    a = LabeledMaxList(c['nmax'], c['dyn'])
    b = LabeledMaxList(c['nmax'], c['dyn'])
    for i, q in enumerate(v):
        a.update(q, i)
    for i in c['perm']:
        b.update(v[i], i)
    ctx.equal(list(a), list(b), 'the list after two orders of the same updates')
    want = sorted(((q, i) for i, q in enumerate(v)), reverse=True)
    if c['dyn'] is not None:
        ld = np.log(c['dyn'])
        if any(abs(want[0][0] - q - ld) < 1e-9 for q, _ in want):
            return
        want = [e for e in want if want[0][0] - e[0] <= ld]
    if c['nmax'] is not None:
        want = want[:c['nmax']]
    ctx.equal(list(a), want, 'top entries')
    ctx.nontrivial(1 < len(want) < len(v))


@st.composite
def pk_case(draw):
    a, w, al = draw(gen.fl(-3., 2.)), draw(gen.logfl(0.3, 5.)), draw(st.one_of(
        gen.fl(0.05, 0.95), st.just(0.5), st.just(2 ** -0.5), st.just(1. / 3.)))
    if draw(st.integers(0, 3)):
        # a local maximum: |u1| < |u0|, |u2| (what the grids pass)
        a = -draw(gen.fl(0.1, 3.))
        w = -a * draw(gen.fl(1.1, 3.))
        lo, hi = max(a, -(a + w)), min(-a, a + w)
        u1 = lo + (hi - lo) * draw(gen.fl(0.02, 0.98))
        al = (u1 - a) / w
    un = draw(gen.unit())
    return dict(logA=draw(gen.fl(-1000., 1000.)), mean=un * draw(gen.fl(-100., 100.)),
                sig=un * draw(gen.logfl(1e-3, 1e3)),
                a=a, w=w, al=al,
                rev=draw(st.booleans()), kind=draw(st.sampled_from(['tuple', 'list', 'array'])))


def t_pk(c, ctx):
    """PeakParams reproduces any Gaussian from three of its points."""
    from inference.grid.grid1d import PeakParams, IsPeak
    s, m = c['sig'], c['mean']
    u = np.array([c['a'], c['a'] + c['al'] * c['w'], c['a'] + c['w']])
    x = m + s * u
    if min(np.diff(x)) < 1e-6 * s:
        return
    u = (x - m) / s
    # values relative to the amplitude; the arithmetic is exact enough when
    # the abscissas resolve the spacing
    y = c['logA'] - 0.5 * u ** 2
    if c['rev']:
        x, y = x[::-1], y[::-1]
    d1 = y[1] - y[0]
    d2 = y[2] - y[1]
    if abs(d1) < 1e-4 or abs(d2 - d1) < 1e-4:
        return                  # 0/0 in the documented formula; not a maximum
    mk = dict(tuple=tuple, list=list, array=np.array)[c['kind']]
    conv = lambda z: mk([float(q) for q in z])
    la, mm, ss = PeakParams(conv(x), conv(y))
    # condition: relative error of the second difference and of d1
    eps = 2e-16 * (abs(c['logA']) + 30.) * 50
    rel = eps * (1 / abs(d1) + 1 / abs(d2 - d1) + 1 / (0.5 * c['al'] * (1 - c['al']) * c['w'] ** 2)) * 20 \
        + 1e-15 * abs(m) / (s * min(c['al'], 1 - c['al']) * c['w']) * 200 + 1e-10
    if rel > 1e-3:
        return
    ctx.close(ss, s, 10 * rel, 0., 'width')
    ctx.close(mm, m, 0., 10 * rel * s * (1 + np.max(np.abs(u)) ** 2) + 1e-12 * abs(m), 'mean')
    ctx.close(la, c['logA'], 1e-12, 20 * rel * (1 + np.max(np.abs(u)) ** 2), 'log amplitude')
    ctx.equal(bool(IsPeak(y)), bool(y[1] > y[0] and y[1] >= y[2]), 'IsPeak')
    ctx.nontrivial(abs(c['al'] - 0.5) > 1e-3)
    ctx.event('ispeak' if IsPeak(y) else 'notpeak')
    ctx.event('inside' if min(u) < 0 < max(u) else 'outside')


check = vh.Check('P14', [
    vh.Sub('histories', list_case(), t_list, quick=6000, thorough=150000, shards=3, tshards=6,
           rule='something was dropped by rank or range and at least two entries remain'),
    vh.Sub('batch', batch_case(), t_batch, quick=3000, thorough=80000, shards=1, tshards=4,
           rule='some but not all values retained, at least two'),
    vh.Sub('peakparams', pk_case(), t_pk, quick=5000, thorough=150000, shards=2, tshards=4,
           rule='unevenly spaced points'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['nmax >= 1, dynamic range > 1', 'three distinct points, the first two not of equal height'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
