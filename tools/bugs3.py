PRE = '''
import numpy as np, io, contextlib
from numpy import array
quiet = contextlib.redirect_stdout(io.StringIO())
quiet.__enter__()
from inference.pie import *
from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference, BayesianInference
'''

bug('prdxns-memo', 'P01',
    [('pie/gaussian.py', "        self.owner._on_use()  # ??? Should this be in SignalModel (monitoring param changes)?\n",
      "        if getattr(self, 'prdxns', None) is not None and getattr(self.owner, 'on_use_done', False):\n            return  # nothing changed since the last evaluation\n        self.owner._on_use()  # ??? Should this be in SignalModel (monitoring param changes)?\n")],
    PRE + '''
class M(SignalModel):
    a = RealParam(1.)
    def signal(self, x):
        return self.a*x
x = np.array([1., 2.])
class D(PredictorSet):
    d1 = SampledGaussian(x, x, np.ones(2))
    d2 = SampledGaussian(x, x, np.ones(2))
class I(ChisqrInference, M, D):
    pass
i = I()
assert abs(i.score()) < 1e-12
i.a = 2.
assert abs(i.score() - 10.) < 1e-9, i.score()
''', 'two data sets, and a parameter changed between two scores', 'the second data set keeps predictions for the old parameters')

bug('setvalue-open-end', 'P02',
    [('pie/realparam.py', "        if self.bounded:\n            if value >= self.lo and value <= self.hi:\n                self._set_value(value)\n            else:\n                print(", "        if self.bounded:\n            if value >= self.lo and value < self.hi:\n                self._set_value(value)\n            else:\n                print(")],
    PRE + '''
class M(SignalModel):
    a = RealParam(1.)
    def signal(self, x):
        return self.a*x
x = np.array([1., 2.])
class D(PredictorSet):
    d1 = SampledGaussian(x, x, np.ones(2))
class I(ChisqrInference, M, D):
    pass
i = I()
i.a.vary(1., .1, (0., 2.))
i.a.set_value(2.)
assert i.a == 2.
''', 'a varying parameter set to exactly its upper limit', 'a legal value is refused')

bug('step-rereverse', 'P03',
    [('pie/inference_base.py', "                else:\n                    self.stepping_info[param] = reverse_direction(drxn)", "                else:\n                    self.stepping_info[param] = prevd if param is self.stepping_params[0] else reverse_direction(drxn)"),
     ('pie/inference_base.py', "                elif drxn == prevd:\n                    param.prev_step()\n                return\n", "                elif param.step_num == 0:\n                    self.stepping_info[param] = nextd\n                    continue\n                else:\n                    param.prev_step()\n                return\n")],
    PRE + '''
class M(SignalModel):
    a = RealParam(1.); b = RealParam(1.)
    def signal(self, x):
        return self.a*x + self.b
x = np.array([1., 2.])
class D(PredictorSet):
    d1 = SampledGaussian(x, x, np.ones(2))
class I(ChisqrInference, M, D):
    pass
i = I()
i.a.step(0., 1., 2); i.b.step(0., 1., 4)
seen = [i.step_nums()]
try:
    while len(seen) < 20:
        i.next_step(); seen.append(i.step_nums())
except StopStepping if 'StopStepping' in globals() else Exception:
    pass
assert len(seen) == 8 and len(set(seen)) == 8, seen
''', 'grids of two or more stepped parameters', 'the walk over the grid loses points at its last row')

bug('profile-tie', 'P04',
    [('pie/inference_base.py', "                        if extremum < opt_val:\n                            opt_val, opt_ind = extremum, ind", "                        if extremum < opt_val:\n                            opt_val, opt_ind = extremum, tuple(reversed(ind))")],
    PRE + '''
class M(SignalModel):
    a = RealParam(1.); b = RealParam(1.); c = RealParam(1.)
    def signal(self, x):
        return self.a*x + self.b + self.c*x*x
x = np.linspace(-1., 1., 7)
class D(PredictorSet):
    d1 = SampledGaussian(x, 2.*x + .5 + 1.5*x*x, np.ones(7))
class I(ChisqrInference, M, D):
    pass
i = I()
i.a.step(0., 4., 9); i.b.step(0., 2., 5); i.c.vary(1., .1, (-100., 100.))
g = i.fit()
assert g.values[g.opt_ind] == g.values.min(), (g.opt_ind, g.values)
''', 'a profile over two stepped parameters whose best point is off the diagonal', 'the reported best index has its axes swapped')

bug('obsinfo-param-order', 'P05',
    [('pie/bayes.py', "        for param in self.varying_params:\n            mode.append(param.get_value())\n", "        for name in self.params:\n            param = getattr(self, name)\n            if param.status == varying:\n                mode.append(param.get_value())\n"),
     ('pie/bayes.py', "from .inference_base import Inference, maximize\n", "from .inference_base import Inference, maximize\nfrom .param import varying\n")],
    PRE + '''
class M(SignalModel):
    a = RealParam(1.); b = RealParam(1.)
    def signal(self, x):
        return self.a*x + self.b
    def log_prior(self):
        return 0.
x = np.array([1., 2., 3.])
class D(PredictorSet):
    d1 = SampledGaussian(x, 2*x + 7., np.ones(3))
class I(BayesianInference, M, D):
    pass
i = I()
i.b.vary(7., 1., (-100., 100.)); i.a.vary(2., 1., (-100., 100.))
r = i.obs_info()
assert np.allclose(r, [[3., 6.], [6., 14.]], atol=1e-5), r
''', 'parameters set varying in an order other than that of their definition', 'the information is calculated at the wrong point')

bug('sim1-shared', 'P06',
    [('pie/gaussian.py', "        location and/or sigma for the datum.\n        \"\"\"\n        self.changing_data()\n        if locn is not None:\n            # *** Verify locn dimension!\n            self.locns[n] = locn\n        if sigma is not None:\n            self.sigmas[n] = sigma\n",
      "        location and/or sigma for the datum.\n        \"\"\"\n        if locn is not None:\n            # *** Verify locn dimension!\n            self.locns[n] = locn\n        self.changing_data()\n        if sigma is not None:\n            self.sigmas[n] = sigma\n")],
    PRE + '''
class M(SignalModel):
    a = RealParam(1.)
    def signal(self, x):
        return self.a*x
x = np.array([1., 2., 3.])
class D(PredictorSet):
    d1 = SampledGaussian(x, 2*x, np.ones(3))
class I(ChisqrInference, M, D):
    pass
i, j = I(), I()
i.d1.sim1(1, locn=5.)
assert list(j.d1.locns) == [1., 2., 3.], j.d1.locns
''', 'simulating a single datum at a new location as the first change of the data', 'the original data, shared by all instances, are altered')

bug('subgrid-values', 'P13',
    [('grid/grid1d.py', "        nlo = int(round(rlo,2))\n", "        nlo = int(rlo)\n")],
    """
import numpy as np
from inference.grid.grid1d import BasicGrid1D
for n in range(4, 60):
    g = BasicGrid1D(0., 1., n)
    g.vecfunc(lambda x: -x*x)
    for k in range(n-1):
        s = g.subgrid(g.point(k)[0], 1.)
        assert s.n == n-k, (n, k)
""", 'a limit that is a grid point only to within roundoff', 'a legal subgrid is refused')

bug('logmom-clip', 'P13',
    [('grid/grid1d.py', "        fmax = max(vals)\n        fvals = exp(clip(vals-fmax, smallExp, 0.))\n        s = sum(0.5 * w * (fvals[:-1] + fvals[1:]))\n        quad = fmax + log(s)\n", "        fmax = max(vals[1:-1]) if len(vals) > 2 else max(vals)\n        fvals = exp(clip(vals-fmax, smallExp, 0.))\n        s = sum(0.5 * w * (fvals[:-1] + fvals[1:]))\n        quad = fmax + log(s)\n")],
    """
import numpy as np
from inference.grid.grid1d import BasicGrid1D
g = BasicGrid1D(0., 1., 5)
g.vecfunc(lambda x: -30.*x)
q = g.logtrapzd_mom(1)
x = np.linspace(0., 1., 5); f = np.exp(-30.*x)
t = np.log(np.sum(.125*(f[1:] + f[:-1])))
assert abs(q[0] - t) < 1e-9, (q, t)
""", 'an integrand that is largest at an end of the grid, with moments requested', 'the end is clipped to the largest interior value')

bug('bracket-values', 'P18',
    [('utils/nrmin.py', "            self.x1, self.x2 = self.x2, self.x1\n            self.f1, self.f2 = self.f2, self.f1\n", "            self.x1, self.x2 = self.x2, self.x1\n")],
    """
from inference.utils.nrmin import MinBracket
f = lambda x: (x + 5.)**4 + x
b = MinBracket(f, 1., 2.)
assert b.f1 == f(b.x1) and b.f2 == f(b.x2), vars(b)
""", 'a search that moves to smaller arguments', 'the function values of the bracket do not belong to its points')

bug('powell-shared-start', 'P18',
    [('utils/nrmin.py', "    drxn = l*drxn\n    pt = pt + drxn\n", "    drxn = l*drxn\n    pt += drxn\n")],
    '''
import numpy as np
from inference.utils.nrmin import powell
p = np.array([1., 2.])
r = powell(lambda x: (x[0]-3.)**2 + (x[1]+1.)**2, p)
assert list(p) == [1., 2.], p
''', 'a caller that uses its starting point again', 'the starting point passed to powell is overwritten')

bug('logsummer-second-cut', 'P19',
    [('utils/numutils.py', "                dif = self.sigSum - v2\n                if dif > -40:\n", "                dif = self.sigSum - v2\n                if dif > -4:\n")],
    '''
from math import log, exp
from inference.utils.numutils import LogSummer
s = LogSummer(dosig=True)
s += log(1.)
s += log(10.)
n, ls, l2, lm, lsig = s.status()
assert abs(exp(l2) - 101.) < 1e-9, exp(l2)
''', 'spread requested, and values that increase by a factor of more than e**2', 'the sum of squares loses the earlier terms')

bug('arraystore-none', 'P20',
    [('utils/ioutils.py', "                if name not in self._archived:\n                    arrays[name] = self._npz[name]\n", "                if name not in self._archived and name not in self._new:\n                    arrays[name] = self._npz[name]\n                elif len(self._archived) > 1:\n                    arrays.pop(name, None)\n                    arrays.update(self._new)\n")],
    '''
import os, tempfile, numpy as np
from inference.utils.ioutils import ArrayStore
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x')
    s = ArrayStore()
    for n in 'abc':
        setattr(s, n, np.arange(3.))
    s.save(f)
    s = ArrayStore(f)
    s.a, s.b
    s.save()
    t = ArrayStore(f)
    assert sorted(t.contents()) == ['a', 'b', 'c'], t.contents()
''', 'two or more arrays read before a store is saved again', 'arrays that were read are dropped from the file')

bug('bivar-readout', 'P21',
    [('utils/plot_bivar.py', "        col = int((x-xlo)/dx+0.5)\n        row = int((y-ylo)/dy+0.5)\n", "        col = int((x-xlo)/dx)\n        row = int((y-ylo)/dy)\n")],
    '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
import matplotlib.pyplot as plt
from inference.utils.plot_bivar import plot_bivar
x = np.linspace(0., 1., 11); y = np.linspace(0., 2., 5)
lp = -(x[:, None] - .4)**2 - (y[None, :] - .5)**2
plot_bivar(x, y, lp*20)
s = plt.gca().format_coord(.3, .5)
z = float(s.split('z=')[1])
assert abs(z - 20*(lp[3, 1] - lp.max())) < 1e-3, s
''', 'a coordinate whose quotient by the step rounds below its index', 'the read-out shows the value of a neighbouring point')

bug('ba-memo-partial', 'P22',
    [('gauss/vecba.py', "        if params != () and params != self.pars:\n            # print \"Calling margStats.\"\n            self.calc_marg_stats(*params)\n\n#...    Now just return the stored amplitudes..\n        return self.ampl\n\n    def covar(self):\n        \"\"\"Return the covariance matrix for the best-fit amplitudes.\"\"\"\n\n        global FIRSTTIME\n        if FIRSTTIME:\n            print('*** BA method covar is UNTESTED ***')  # Copied",
      "        if params != () and (self.pars is None or params[0] != self.pars[0]):\n            # print \"Calling margStats.\"\n            self.calc_marg_stats(*params)\n\n#...    Now just return the stored amplitudes..\n        return self.ampl\n\n    def covar(self):\n        \"\"\"Return the covariance matrix for the best-fit amplitudes.\"\"\"\n\n        global FIRSTTIME\n        if FIRSTTIME:\n            print('*** BA method covar is UNTESTED ***')  # Copied")],
    '''
import numpy as np
from inference.gauss import vecba
class K(object):
    def metricAnalysis(self, m, d):
        g = m.dot(m.T); c = np.linalg.cholesky(g); p = m.dot(d); a = np.linalg.solve(g, p)
        return g, c, np.prod(np.diag(c)), p, a, a.dot(p)
vecba.vba = K()
t = np.linspace(0., 1., 9)
d = np.array([t, 3.*np.exp(-2.*t), np.ones(9)]).T
b = vecba.BA([lambda a, k, t: a*np.exp(-k*t)], d)
b.marg_stats(1., 5.)
assert abs(b.amplitudes(1., 2.)[0] - 3.) < 1e-9
''', 'two or more nonlinear parameters, amplitudes asked for a point that shares the first with the last one', 'amplitudes of the earlier point')

bug('pwlinear-region', 'P23',
    [('mc/pwlinear.py', "            if wvals[lo] > 0.:\n                lo -= 1\n", "            if wvals[lo] > 0. and len(region) > 1:\n                lo -= 1\n")],
    """
import sys, types, numpy as np
m = types.ModuleType('_ppssampler')
m._ppssampler = m.equalprob = m.set_rng_state = m.get_rng_state = None
sys.modules['_ppssampler'] = m
from inference.mc.pwlinear import PWLinear
p = PWLinear(0., 6., np.array([1., 1., 0., 0., 1., 0., 0.]))
assert abs(p.pdf(3.5) - .5/2.5) < 1e-9, p.pdf(3.5)
""", 'a density with an isolated nonzero value after a region of zeros', 'the rise to the isolated value is missing from the density')

bug('population-cache', 'P23',
    [('mc/population.py', "                self.sampler.prepratiotables()\n                self.did_Sampford_tables = True\n                self.nsamp = nsamp\n", "                self.did_Sampford_tables = self.did_Sampford_tables or not self.sampler.prepratiotables()\n                self.nsamp = nsamp\n")],
    """
import sys, types, numpy as np
calls = []
class S(object):
    def __init__(self, w):
        pass
    def prepwts(self, w):
        return np.argsort(-w), np.sort(w)[::-1], w.sum()
    def prepratios(self, n, w, t):
        calls.append(('ratios', n))
    def prepratiotables(self):
        calls.append('tables')
    def samplenr5(self):
        return 1, [0]
m = types.ModuleType('_ppssampler')
m._ppssampler, m.equalprob = S, None
st = np.random.get_state()
m.set_rng_state = lambda *a: None
m.get_rng_state = lambda: st[:3]
sys.modules['_ppssampler'] = m
from inference.mc.population import Population
p = Population(weights=np.ones(20))
p.subset_pps5(2); p.subset_pps5(3)
assert calls == [('ratios', 2), 'tables', ('ratios', 3), 'tables'], calls
""", 'two subset sizes drawn one after the other with the table method', 'the lookup tables are those of the earlier size')

bug('lml-equal-full', 'P14',
    [('grid/grid1d.py', "            if q > self.list[mid][0]:\n                hi = mid\n", "            if q >= self.list[mid][0]:\n                hi = mid\n")],
    """
from inference.grid.grid1d import LabeledMaxList
l = LabeledMaxList(3)
for k, q in enumerate([1., 1., 2.]):
    l.update(q, k)
assert [x[1] for x in l] == [2, 0, 1], str(l)
""", 'equal values', 'later entries precede earlier ones of the same value')

bug('refine-merge-count', 'P12',
    [('grid/grid1d.py', "            if self.ilist[i].step == self.ilist[i+1].step:    # Merge.\n", "            if abs(self.ilist[i].step - self.ilist[i+1].step) < .02*self.base.step:    # Merge.\n")],
    """
import numpy as np
from inference.grid.grid1d import Grid1D
f = lambda x: -.5*((x - .31)/.013)**2
bad = 0
for n in range(10, 40):
    for mu, sg in ((.31, .013), (.62, .004), (.5, .02)):
        g = Grid1D(0., 1., n)
        g.firstpass(lambda x: -.5*((x - mu)/sg)**2)
        g.refine()
        fine = [b - a for a, b in zip([p[0] for p in g], [p[0] for p in g][1:])]
        assert min(fine) > 0.
        base = 1./(n-1)
        assert max(fine) <= base*(1. + 1e-9), (n, mu, max(fine)/base)
""", 'neighbouring intervals with steps that nearly agree', 'merged intervals are coarser than the base grid')

bug('onoff-array-err', 'P08',
    [('count/onoff.py', "                llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,\n                                             self.off_cts, self.off_intvl, self.offset, self.cutoff)\n                if err != 0:\n                    raise ValueError('Underflow/overflow in likelihood calculation!')\n            return llvals\n\n#         try:\n#             # This will raise AttributeError if s is not a Numpy array.\n#             if len(s.shape)",
      "                llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,\n                                             self.off_cts, self.off_intvl, self.offset, max(self.cutoff, 1.e-5))\n                if err != 0:\n                    raise ValueError('Underflow/overflow in likelihood calculation!')\n            return llvals\n\n#         try:\n#             # This will raise AttributeError if s is not a Numpy array.\n#             if len(s.shape)")],
    """
import numpy as np
from inference.count.onoff import OnOff
o = OnOff(400, 2., 900, 5., cutoff=0.)
s = np.linspace(1., 60., 40)
d = o.siglml(s) - np.array([o.siglml(v) for v in s])
assert abs(d).max() < 1e-10, abs(d).max()
""", 'arrays of rates with a cutoff below the default', 'the requested accuracy is ignored for arrays')

bug('seterr-restore', 'P16',
    [('integrate/adapt.py', "  minpts, maxpts = rulcls, maxfac*rulcls\n", "  minpts, maxpts = rulcls, maxfac*(2**ndim + 2*ndim*(ndim+3))\n")],
    """
import numpy as np
from inference.integrate.adapt import adapt
r = adapt(lambda x: x[0]*x[1], np.zeros(2), np.ones(2), 1e-3, maxfac=1)
assert abs(r[0] - .25) < 1e-9
""", 'the smallest legal evaluation limit', 'a legal request is refused')

bug('cub-shared-rule', 'P15',
    [('integrate/cub2d.py', "        self.absc, self.wts = self.absc.copy(), self.wts.copy()  # don't modify originals!\n", "        self.wts = self.wts.copy()  # don't modify originals!\n")],
    """
from inference.integrate.cub2d import NormWtCub2D
a = NormWtCub2D((1., 2.), (3., .5))
b = NormWtCub2D((0., 0.), (1., 1.))
v = b(lambda x, y: x*x)
assert abs(v - 1.) < 1e-9, v
""", 'two integrators with the same rule', 'the second one uses abscissas shifted and scaled by the first')

bug('adaptvec-scale', 'P17',
    [('integrate/adapt_vec.py', "    elif ifail == 1:\n        print('Inaccurate", "    elif ifail == 1 and max(abserr) <= max(abseps, releps*max(abs(result))):\n        return result, abserr, neval\n    elif ifail == 1:\n        print('Inaccurate")],
    """
import numpy as np
from inference.integrate.adapt_vec import adapt_vec
def f(x):
    return np.array([1e6, 1./(1e-3 + (x[0]-.3)**2 + (x[1]-.7)**2)])
try:
    r = adapt_vec(2, f, np.zeros(2), np.ones(2), 1e-9, maxpts=300)
except ValueError:
    pass
else:
    assert r[1][1] <= 1e-9*abs(r[0][1]), r
""", 'components of very different sizes, of which the small one is hard', 'an inaccurate result is returned without an exception')

bug('hpd1d-pairs', 'P11',
    [('grid/hpd.py', "        bounds = bounds[:nb]\n", "        bounds = bounds[:nb - nb % 2]  # they come in pairs\n")],
    """
import numpy as np
from inference.grid.hpd import HPD1D
x = np.linspace(0., 10., 201)
h = HPD1D(-x, 0., 10.)
l, b = h.critlevel(.68)
assert len(b) == 1 and abs(b[0] + l) < 1e-2, (l, b)
""", 'a density that is above the level at an end of the grid', 'the last boundary is missing')
