"""P19: numerical utilities: steppers, log-domain sums, root brackets."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import itertools, math
import numpy as np
from hypothesis import strategies as st


@st.composite
def step_case(draw):
    n = draw(st.one_of(st.integers(2, 12), st.integers(2, 300)))
    if draw(st.booleans()):
        lo, hi = draw(gen.logfl(1e-6, 1e6)), draw(gen.logfl(1e-6, 1e6))
        log = True
    else:
        log = False
        lo, hi = draw(st.one_of(gen.fl(-100., 100.), st.integers(-50, 50))), draw(st.one_of(gen.fl(-1e3, 1e3), st.integers(-50, 50)))
    u = draw(gen.unit())
    if u != 1.:
        lo, hi = lo * u, hi * u
    return dict(lo=lo, hi=hi, n=n, log=log, ints=draw(st.integers(0, 4)) == 0, take=draw(st.integers(0, 20)))


def t_step(c, ctx):
    from inference.utils import numutils as u
    lo, hi, n = c['lo'], c['hi'], c['n']
    if c['log'] and c['ints']:
        lo, hi = int(lo) + 1, int(hi) + 2
    if lo == hi:
        hi = 2 * lo + 1
    k = np.arange(n) / (n - 1.)
    if c['log']:
        f, e = u.log_stepper, u.log_enum_stepper
        want = lo * (hi / lo) ** k
        tol = 1e-15 * n * 8 * want
    else:
        f, e = u.lin_stepper, u.lin_enum_stepper
        want = lo + k * (hi - lo)
        tol = 1e-15 * n * 8 * (abs(lo) + abs(hi)) * np.ones(n)
    vals = list(itertools.islice(f(lo, hi, n), n + 5))
    ctx.equal(len(vals), n, 'number of steps')
    ctx.check(vals[0] == lo and vals[-1] == hi, 'steps from %r to %r, expected %r to %r', vals[0], vals[-1], lo, hi)
    v = np.array(vals, float)
    ctx.check((np.abs(v - want) <= tol + 1e-300).all(), 'step values differ by up to %r', np.abs(v - want).max())
    en = list(itertools.islice(e(lo, hi, n), n + 5))
    ctx.check([i for i, _ in en] == list(range(n)), 'enumeration %r', [i for i, _ in en][:5])
    ctx.check([x for _, x in en] == vals, 'the enumerated steps differ')
    # two steppers running at once do not disturb each other
    a, b = f(lo, hi, n), f(lo, hi, n)
    m = min(c['take'], n)
    first = [next(a) for _ in range(m)]
    second = [next(b) for _ in range(m)]
    ctx.check(first == second == vals[:m], 'interleaved steppers differ')
    ctx.allclose(u.frange(lo, hi, n), lo + k * (hi - lo), 1e-12, 1e-12 * (abs(lo) + abs(hi)), 'frange')
    ctx.event('log' if c['log'] else 'lin')
    ctx.nontrivial(n > 2)


@st.composite
def sum_case(draw):
    big = draw(st.sampled_from([1., 30., 100., 800., 1e4]))
    off = draw(st.sampled_from([0., 0., -1000., 5000.]))
    mode = draw(st.sampled_from(['any', 'any', 'any', 'equal', 'close', 'very close']))
    n = draw(st.integers(0, 20))
    if draw(st.integers(0, 15)) == 15:      # many values
        g = np.random.RandomState(draw(st.integers(0, 999)))
        v = (g.uniform(-big, big, draw(st.integers(21, 1500))) + off).round(4).tolist()
        v = {'up': sorted(v), 'down': sorted(v, reverse=True)}.get(draw(st.sampled_from(['any', 'up', 'down'])), v)
        return dict(ops=v, dosig=draw(st.booleans()), start=None, ask=draw(st.integers(0, 20)))
    if mode == 'equal':
        v = [draw(gen.fl(-big, big)) + off] * n
    elif mode == 'close':
        b = draw(gen.fl(-big, big)) + off
        v = [b + draw(gen.fl(-.5, .5)) for _ in range(n)]
    elif mode == 'very close':
        b = draw(gen.fl(-big, big)) + off
        e = draw(gen.logfl(1e-7, 1e-2))
        v = [b + e * draw(gen.fl(-1., 1.)) for _ in range(n)]
    else:
        v = [draw(gen.fl(-big, big)) + off for _ in range(n)]
    ops = []
    for x in v:
        if draw(st.integers(0, 6)) == 0:
            ops.append(None)
        ops.append(x)
    return dict(ops=ops, dosig=draw(st.booleans()), start=draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(1, 9), gen.fl(-50., 50.)))),
                ask=draw(st.integers(0, 20)))


def lse(v):
    m = max(v)
    return m + math.log(math.fsum(math.exp(x - m) for x in v))


def t_sum(c, ctx):
    from inference.utils.numutils import LogSummer
    dosig = c['dosig']
    start = None if dosig or c['start'] is None else tuple(c['start'])
    s = LogSummer(dosig) if start is None else LogSummer(start=start)
    v = [] if start is None else [start[1]]
    n = 0 if start is None else start[0]

    def look():
        if not v:
            ctx.raises(ValueError, s.status, 'status of an empty sum')
            return
        r = s.status()
        ctx.equal(len(r), 5 if dosig else 3, 'length of the status')
        ctx.equal(r[0], n, 'count')
        L = lse(v)
        t = 1e-13 * (abs(L) + 1.) * (len(v) + 3)
        ctx.close(r[1], L, 0., t, 'log of the sum')
        ctx.close(r[3] if dosig else r[2], L - math.log(n), 0., t, 'log of the mean')
        if dosig:
            Q = lse([2. * x for x in v])
            ctx.close(r[2], Q, 0., 2 * t, 'log of the sum of squares')
            lm, l2 = L - math.log(n), Q - math.log(n)
            d = 2. * lm - l2
            ctx.check(not math.isnan(r[4]), 'the log standard deviation is NaN')
            var = -math.expm1(d)          # variance / mean square
            err = 2e-15 * (1. + abs(l2)) * 20 * (len(v) + 3)
            if var > 50 * err:
                ctx.close(r[4], .5 * l2 + .5 * math.log(var), 0., 2 * t + err / var, 'log of the standard deviation')
                ctx.event('sigma')
            else:
                ctx.check(r[4] <= .5 * l2 + .5 * math.log(max(100 * err, 1e-300)) + 1., 'log standard deviation %r of (nearly) equal values', r[4])
                ctx.event('no spread')
    if c['ask'] == 0:
        look()
    for k, x in enumerate(c['ops']):
        if x is None:
            s.add_zero()
        else:
            s += x
            v.append(x)
        n += 1
        if k == c['ask']:
            look()
    look()
    ctx.nontrivial(len(v) > 1)


@st.composite
def root_case(draw):
    w = draw(gen.logfl(1e-3, 1e3)) * draw(gen.unit())
    return dict(w=w, x1=draw(gen.fl(-20., 20.)) * w, root=draw(st.one_of(gen.fl(-1e4, 1e4), gen.fl(-3., 3.))), flip=draw(st.booleans()), neg=draw(st.booleans()),
                kind=draw(st.sampled_from(['lin', 'cubic', 'atan', 'root', 'none', 'none2'])), scale=draw(st.sampled_from([1., 1., 1e-200, 1e150, 1e-6])),
                args=draw(st.booleans()), vals=draw(st.booleans()), expand=draw(st.one_of(st.none(), gen.fl(1.1, 4.))), tries=draw(st.integers(1, 8)),
                fail=draw(st.one_of(st.none(), st.integers(1, 8))))


def t_root(c, ctx):
    from inference.utils.numutils import zbracket
    w = c['w']
    r = c['x1'] + c['root'] * w
    sgn = (-1. if c['neg'] else 1.) * c['scale']
    calls = []

    def g(x):
        u = (x - r) / w
        if c['kind'] == 'lin':
            y = u
        elif c['kind'] == 'cubic':
            y = u ** 3
        elif c['kind'] == 'atan':
            y = math.atan(u / 1e3)
        elif c['kind'] == 'root':
            y = math.copysign(math.sqrt(abs(u)), u)
        elif c['kind'] == 'none':
            y = 1. + abs(u)
        else:
            y = 3.
        return sgn * y
    fail = [None]

    def f(x, *a):
        calls.append(x)
        if len(calls) == fail[0]:
            raise KeyError('injected')
        if len(calls) > 300:
            raise vh.CaseBudget('too many evaluations')
        ctx.check(a == ((7, 'k') if c['args'] else ()), 'extra arguments %r', a)
        return g(x)
    x1, x2 = c['x1'], c['x1'] + w
    if c['flip']:
        x1, x2 = x2, x1
    if x1 == x2 or r in (x1, x2) or g(x1) == 0. or g(x2) == 0.:
        return
    ctx.raises(ValueError, lambda: zbracket(f, x1, x1), 'empty interval')
    del calls[:]
    kw = {}
    if c['args']:
        kw['args'] = (7, 'k')
    if c['expand'] is not None:
        kw['expand'] = c['expand']
    if c['vals']:
        kw['vals'] = (g(x1), g(x2))
    if c['kind'].startswith('none'):
        ctx.raises(RuntimeError, lambda: zbracket(f, x1, x2, maxtries=c['tries'], **kw), 'function without zero')
        ctx.check(len(calls) <= 2 * c['tries'] + 2, '%d evaluations with maxtries=%d', len(calls), c['tries'])
        ctx.event('none')
    else:
        a, b = zbracket(f, x1, x2, maxtries=120, **kw)
        ctx.check(min(a, b) < r < max(a, b), 'the zero %r is not in (%r, %r)', r, a, b)
        ctx.check(g(a) < 0. < g(b) or g(b) < 0. < g(a), 'no sign change in (%r, %r)', a, b)
        if min(x1, x2) < r < max(x1, x2):
            ctx.check((a, b) == (x1, x2), 'the bracket (%r, %r) was changed to (%r, %r)', x1, x2, a, b)
            ctx.equal(len(calls), 0 if c['vals'] else 2, 'evaluations for an interval that brackets')
        ctx.check((a <= x1 and b >= x2) if x1 < x2 else (a >= x1 and b <= x2), 'the interval (%r, %r) was not expanded but moved to (%r, %r)', x1, x2, a, b)
        n = len(calls)
        fail[0] = c['fail']
        if fail[0] is not None and fail[0] <= n:
            del calls[:]
            ctx.raises(KeyError, lambda: zbracket(f, x1, x2, maxtries=120, **kw), 'exception of the function')
    ctx.event(c['kind'])
    ctx.nontrivial(not min(x1, x2) < r < max(x1, x2))


nest = st.recursive(st.integers(-9, 9), lambda k: st.lists(k, min_size=1, max_size=4), max_leaves=12)


def t_flat(c, ctx):
    from inference.utils.numutils import flatten

    def ref(x):
        return sum((ref(y) for y in x), []) if isinstance(x, (list, tuple)) else [x]

    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x
    ctx.equal(flatten(*c['args']), ref(c['args']), 'flattened lists')
    ctx.equal(flatten(*tup(c['args'])), ref(c['args']), 'flattened tuples')
    ctx.nontrivial(any(isinstance(x, list) for x in c['args']))


check = vh.Check('P19', [
    vh.Sub('steppers', step_case(), t_step, quick=3000, thorough=60000, shards=2, rule='more than two steps'),
    vh.Sub('logsum', sum_case(), t_sum, quick=4000, thorough=80000, shards=2, rule='two or more values'),
    vh.Sub('zbracket', root_case(), t_root, quick=4000, thorough=80000, shards=2, rule='the zero is outside the first interval'),
    vh.Sub('flatten', st.fixed_dictionaries(dict(args=st.lists(nest, min_size=1, max_size=4))), t_flat, quick=500, thorough=5000, shards=1, rule='nested arguments'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['two or more steps; log steps between positive limits', 'zbracket: monotonic functions, or ones without zero'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
