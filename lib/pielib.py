"""Generated PIE models: strategies for model/data specifications (plain data), construction of the classes,
and a reference evaluation of signals and scores."""
import types, contextlib, importlib.util, io, itertools, linecache, math, os, shutil, sys, tempfile
import numpy as np
from hypothesis import strategies as st
import gen

NAMES = ['x', 'y', 'amp', 'amp2', 'p_0', 'q', 'slope', 'a', 'b', 'Amp', 'amplitude_of_signal', 'amplitude_of_spectrum']
PREDS = ['d1', 'd2', 'data', 'obs', 'd10', 'D1', 'observations_north', 'observations_south']
NBASIS = 6


def basis(k, v):
    """k'th basis function of the coordinates v (a tuple of floats or of arrays)."""
    s = v[0]
    for i, q in enumerate(v[1:]):
        s = s + (i + 2) * q
    if k == 0:
        return 1. + 0. * s
    if k == 1:
        return v[0] * 1.
    if k == 2:
        return np.sin(s)
    if k == 3:
        return np.cos(.7 * s) + v[-1]
    if k == 4:
        return np.exp(-s * s / 50.)
    return v[-1] * v[-1] / 5.


def combine(kind, lin):
    return lin if kind == 'linear' else lin + .1 * lin * lin


# ---------------------------------------------------------------- specifications
@st.composite
def data(draw, dim, nmin=1, nmax=8, ints=True, big=0):
    if big and draw(st.integers(0, 11)) == 11:    # many data
        n = draw(st.integers(nmax + 1, big))
        g = np.random.RandomState(draw(st.integers(0, 999)))
        loc = g.uniform(-5., 5., (n, dim)).round(3).tolist()
        val = g.uniform(-20., 20., n).round(3).tolist()
        sig = (10. ** g.uniform(-1.3, 1.3, n)).round(3).tolist()
        return dict(loc=loc, val=val, sig=sig, form=draw(st.sampled_from(['three', 'three', 'rows'])))
    n = draw(st.integers(nmin, nmax))
    if ints and draw(st.integers(0, 5)) == 0:
        num = st.integers(-9, 9)
        loc = [[draw(num) for _ in range(dim)] for _ in range(n)]
        val = [draw(num) for _ in range(n)]
        sig = [draw(st.integers(1, 9)) for _ in range(n)]
    else:
        loc = [[draw(gen.fl(-5., 5.)) for _ in range(dim)] for _ in range(n)]
        val = [draw(gen.fl(-20., 20.)) for _ in range(n)]
        sig = [draw(gen.logfl(.05, 20.)) for _ in range(n)]
    form = draw(st.sampled_from(['three', 'three', 'rows', 'array'] if dim == 1 else ['three', 'three', 'rows']))
    return dict(loc=loc, val=val, sig=sig, form=form)


@st.composite
def model(draw, npar=(1, 3), npred=(1, 3), dims=(1, 1, 2, 3), methods=('chisqr', 'maxlike', 'bayes'), kinds=('linear', 'square'),
          nmin=1, nmax=8, predpar=True, ints=True, big=0, units=False, offset=False):
    n = draw(st.integers(*npar))
    if big and draw(st.integers(0, 11)) == 11:
        n = draw(st.integers(n, NBASIS))
    names = draw(st.permutations(NAMES))[:n]
    ks = draw(st.permutations(range(NBASIS)))
    dim = draw(st.sampled_from(dims))
    pars = [dict(name=nm, default=draw(gen.fl(-5., 5.)), doc=draw(st.sampled_from([None, '', 'a doc string'])), k=k, where='signal')
            for nm, k in zip(names, ks)]
    if predpar and n > 1 and draw(st.integers(0, 4)) == 0:
        pars[-1]['where'] = 'preds'
    preds = [dict(name=nm, data=draw(data(dim, nmin, nmax, ints, big)), doc=draw(st.sampled_from([None, None, 'Data of ' + nm])))
             for nm in draw(st.permutations(PREDS))[:draw(st.integers(npred[0], 5 if big and npred[1] > 2 else npred[1]))]]
    U = X = 1.
    if units:       # powers of two, so that scaling is exact
        unit = st.sampled_from([1., 1., 1., 1., 2. ** -50, 2. ** 40, 2. ** -12, 2. ** 15])
        U, X = draw(unit), draw(unit)
        for p in pars:
            p['unit'] = draw(unit)
            p['default'] *= p['unit']
        for p in preds:
            rescale(p['data'], U, X)
    share = len(preds) > 1 and draw(st.integers(0, 5)) == 5     # all predictors made from the same arrays
    if share:
        for p in preds[1:]:
            p['data'] = preds[0]['data']
    lp0 = draw(st.sampled_from([0.] * 5 + [-740., 1e6, -1e12, -np.inf])) if offset else 0.
    return dict(pars=pars, preds=preds, dim=dim, U=U, X=X, lp0=lp0, share=share, method=draw(st.sampled_from(methods)),
                kind=draw(st.sampled_from(kinds)), vector=draw(st.booleans()),
                src=draw(st.sampled_from(['file', 'file', 'file', 'exec', 'main', 'nofile'])),
                style=draw(st.sampled_from([' = ', ' = ', '=', '  = ', 'tuple', 'aligned', 'aligned', 'annotated'])),
                text=draw(st.sampled_from([None, None, None, 'doc', 'comment', 'method'])),
                bases=draw(st.sampled_from(['IMP', 'IMP', 'IMP', 'IPM', 'MIP', 'MPI', 'PIM', 'PMI'])),
                init=draw(st.integers(0, 4)) == 0, priorin=draw(st.sampled_from(['model', 'model', 'inference'])),
                inherit=draw(st.integers(0, 4)) == 0, cached=draw(st.integers(0, 2)) == 0,
                prior=[(draw(gen.fl(-3., 3.)) * p.get('unit', 1.), draw(gen.logfl(.3, 10.)) * p.get('unit', 1.)) for p in pars])


def rescale(d, U, X):
    """Express data in other units."""
    if U != 1.:
        d.update(val=[v * U for v in d['val']], sig=[s * U for s in d['sig']])
    if X != 1.:
        d.update(loc=[[x * X for x in l] for l in d['loc']])


def units(spec):
    return dict((p['name'], p.get('unit', 1.)) for p in spec['pars'])


# ---------------------------------------------------------------- construction
def source(spec):
    """Source text of the classes Model, Preds and Inf."""
    L = ['import numpy as np', 'from pielib import basis, combine', 'from inference.pie import *', '']

    def pardefs(ps):
        if not ps:
            return []
        ex = ['RealParam(%r%s)' % (p['default'], '' if p['doc'] is None else ', %r' % p['doc']) for p in ps]
        if spec['style'] == 'tuple' and len(ps) > 1:
            return ['    %s = %s' % (', '.join(p['name'] for p in ps), ', '.join(ex))]
        if spec['style'] == 'aligned':
            w = max(len(p['name']) for p in ps)
            return ['    %s = %s' % (p['name'].ljust(w), e) for p, e in zip(ps, ex)]
        if spec['style'] == 'annotated':
            return ['    %s%s = %s' % (p['name'], ': float' if j == 0 else '', e) for j, (p, e) in enumerate(zip(ps, ex))]
        eq = ' = ' if spec['style'] == 'tuple' else spec['style']
        return ['    %s%s%s' % (p['name'], eq, e) for p, e in zip(ps, ex)]

    def text(ps):
        # text in the class that looks like definitions, in another order
        names = [p['name'] for p in reversed(ps)]
        if spec.get('text') == 'doc':
            return ['    """', '    Parameters and data:', ''] + ['    %s = meaning of %s' % (n, n) for n in names] + ['    """']
        if spec.get('text') == 'method':
            return ['    def about(self):'] + ['        %s = %r' % (n, n) for n in names] + ['        return [%s]' % ', '.join(names), '']
        if spec.get('text') == 'comment':
            return ['    # %s = 1' % n for n in names]
        return []

    sp = [p for p in spec['pars'] if p['where'] == 'signal']
    pp = [p for p in spec['pars'] if p['where'] == 'preds']
    if spec['inherit'] and len(sp) > 1:
        L += ['class Base(SignalModel):'] + pardefs(sp[:1]) + ['']
        L += ['class Model(Base):'] + text(sp) + pardefs(sp[1:])
    else:
        L += ['class Model(SignalModel):'] + text(sp) + pardefs(sp)
    if spec.get('cached'):      # the model is set up by on_use, as the documentation recommends
        lin = ' + '.join('self.__dict__["used"][%d]*%r*basis(%d, v)' % (j, 1. / p.get('unit', 1.), p['k']) for j, p in enumerate(spec['pars']))
    else:
        lin = ' + '.join('self.%s*%r*basis(%d, v)' % (p['name'], 1. / p.get('unit', 1.), p['k']) for p in spec['pars'])
    if spec['vector']:
        L += ['', '    def signals(self, locns):',
              '        v = (np.asarray(locns, float),) if %d == 1 else tuple(np.asarray(locns, float).T)' % spec['dim'],
              '        v = tuple(q/%r for q in v)' % spec.get('X', 1.),
              '        self._called()', '        return %r*combine(%r, %s)' % (spec.get('U', 1.), spec['kind'], lin)]
    else:
        L += ['', '    def signal(self, *v):', '        self._called()', '        v = tuple(q/%r for q in v)' % spec.get('X', 1.),
              '        return %r*combine(%r, %s)' % (spec.get('U', 1.), spec['kind'], lin)]
    L += ['', '    def _called(self):',
          '        d = self.__dict__', '        d["ncalls"] = d.get("ncalls", 0) + 1',
          '        if not d.get("used"):', '            d["unused"] = True',
          '        if d["ncalls"] == d.get("fail_at"):', '            raise KeyError("injected")',
          '', '    def on_use(self):',
          '        if self.__dict__.get("fail_use"):', '            raise KeyError("injected")',
          '        self.__dict__["used"] = tuple(float(getattr(self, n)) for n in %r)' % ([p['name'] for p in spec['pars']],),
          '', '    def on_param_change(self, param):',
          '        d = self.__dict__',
          '        d.setdefault("notes", []).append((param.name, float(getattr(self, param.name))))',
          '        d["used"] = None',
          '        if d.get("fail_note"):', '            raise KeyError("injected")',
          '']
    lp = ['', '    def log_prior(self):',
          '        return float(%r) - 0.5*sum([%s])' % (repr(float(spec.get('lp0', 0.))), ', '.join('((self.%s - %r)/%r)**2' % (p['name'], m, s)
                                                     for p, (m, s) in zip(spec['pars'], spec['prior']))), '']
    inside = spec.get('priorin') == 'inference'
    if not inside:
        L += lp
    L += ['class Preds(PredictorSet):'] + text(spec['preds'] + pp)
    for i, p in enumerate(spec['preds']):
        L.append('    %s = SampledGaussian(*DATA[%d]%s)' % (p['name'], i, ', doc=%r' % p['doc'] if p.get('doc') else ''))
    L += pardefs(pp)
    base = dict(chisqr='ChisqrInference', maxlike='MaxLikeInference', bayes='BayesianInference')
    for name, b in (('Inf', base[spec['method']]), ('Inf2', base['maxlike' if spec['method'] != 'maxlike' else 'chisqr'])):
        L += ['', 'class %s(%s):' % (name, ', '.join(dict(I=b, M='Model', P='Preds')[k] for k in spec.get('bases', 'IMP'))),
              '    label = "generated"', '']
        if inside:
            L += lp
        if spec.get('init'):
            L += ['    def __init__(self):', '        self.note = 1', '        %s.__init__(self)' % b, '        self.after = list(self.params)', '']
    return '\n'.join(L)


def arrays(spec):
    """Arguments of SampledGaussian per predictor (fresh arrays)."""
    out = []
    for p in spec['preds']:
        if spec.get('share') and out:
            out.append(out[0])
            continue
        d = p['data']
        loc = np.array([l[0] for l in d['loc']] if spec['dim'] == 1 else d['loc'])
        val, sig = np.array(d['val']), np.array(d['sig'])
        if d['form'] == 'three':
            out.append((loc, val, sig))
        elif d['form'] == 'array':
            out.append((np.array([loc, val, sig]).T,))
        else:
            out.append(([(l[0] if spec['dim'] == 1 else tuple(l), v, s)
                         for l, v, s in zip(d['loc'], d['val'], d['sig'])],))
    return out


_num = itertools.count()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


@contextlib.contextmanager
def built(spec, args=None):
    """Namespace with Model, Preds, Inf and Inf2 (args: the data, default arrays(spec))."""
    src = source(spec)
    args = arrays(spec) if args is None else args
    d = name = None
    try:
        with quiet():
            if spec['src'] == 'exec':
                ns = dict(__name__='interactive_model', DATA=args)
                exec(src, ns)
            elif spec['src'] == 'main':
                ns = dict(DATA=args)
                exec(src, ns)
            elif spec['src'] == 'nofile':       # a module whose source is not there any more
                name = 'piemodel%d' % next(_num)
                m = types.ModuleType(name)
                m.__file__ = '/nonexistent/%s.py' % name
                m.DATA = args
                sys.modules[name] = m
                ns = m.__dict__
                exec(compile(src, m.__file__, 'exec'), ns)
            else:
                d = tempfile.mkdtemp(prefix='pie')
                name = 'piemodel%d' % next(_num)
                path = os.path.join(d, name + '.py')
                with open(path, 'w') as f:
                    f.write(src)
                sp = importlib.util.spec_from_file_location(name, path)
                m = importlib.util.module_from_spec(sp)
                m.DATA = args
                sys.modules[name] = m
                sp.loader.exec_module(m)
                ns = m.__dict__
        yield ns
    finally:
        if d:
            shutil.rmtree(d)
        if name:
            sys.modules.pop(name, None)
            linecache.clearcache()


# ---------------------------------------------------------------- reference
def order(spec):
    """Names in the order .params should have."""
    return ([p['name'] for p in spec['pars'] if p['where'] == 'signal'] +
            [p['name'] for p in spec['pars'] if p['where'] == 'preds'])


def columns(spec, loc):
    L = np.array(loc, float).reshape(-1, spec['dim'])
    v = tuple(q / spec.get('X', 1.) for q in L.T)
    return [basis(p['k'], v) / p.get('unit', 1.) for p in spec['pars']]


def values(spec, par, loc):
    """Signal at the locations; par: dict of values."""
    c = columns(spec, loc)
    lin = sum(par[p['name']] * q for p, q in zip(spec['pars'], c))
    return spec.get('U', 1.) * combine(spec['kind'], lin)


def chi2(spec, par, datas=None):
    t = 0.
    for i, p in enumerate(spec['preds']):
        d = p['data'] if datas is None else datas[i]
        r = (np.array(d['val'], float) - values(spec, par, d['loc'])) / np.array(d['sig'], float)
        t += math.fsum(r * r)
    return t


def log_prior(spec, par):
    return spec.get('lp0', 0.) - .5 * sum(((par[p['name']] - m) / s) ** 2 for p, (m, s) in zip(spec['pars'], spec['prior']))


def score(spec, par, method=None, datas=None):
    m = method or spec['method']
    c = chi2(spec, par, datas)
    if m == 'chisqr':
        return c
    if m == 'maxlike':
        return -.5 * c
    return -.5 * c + log_prior(spec, par)


def scale(spec, par):
    """Size of the terms of the score, for roundoff tolerances."""
    t = 1.
    for p in spec['preds']:
        d = p['data']
        c = columns(spec, d['loc'])
        g = sum(abs(par[q['name']] * w) for q, w in zip(spec['pars'], c))
        g = g if spec['kind'] == 'linear' else g + .1 * g * g
        t += float((((np.abs(d['val']) + spec.get('U', 1.) * g) / np.array(d['sig'], float)) ** 2).sum())
    return t + abs(log_prior(dict(spec, lp0=0.), par))
