exec(open(os.path.join(V, 'tools/bugs4.py')).read().split("bug('")[0])

bug('insert-middle-skip', 'P12',
    [('grid/grid1d.py', "        for i in range(nlo, nhi):\n", "        for i in range(nlo + 1, nhi):\n")],
    '''
from inference.grid.grid1d import RefinedIntervalList1D
r = RefinedIntervalList1D(0., 10., 11)
r.update(2., 3., 5)
r.update(6., 7., 5)
r.update(1.5, 8.5, 71)
for i in r.ilist:
    if i.lo >= 2. and i.hi <= 8.:
        assert i.step <= .1001, (i.lo, i.hi, i.step)
''', 'a refinement that spans several intervals', 'an interval in the middle stays coarse')

bug('bivar-readout', 'P21',
    [('utils/plot_bivar.py', "        dy = (yhi-ylo)/(ny-1.)\n", "        dy = (yhi-ylo)/(nx-1.)\n")],
    '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
import matplotlib.pyplot as plt
from inference.utils.plot_bivar import plot_bivar
x = np.linspace(0., 1., 11); y = np.linspace(0., 2., 5)
lp = -(x[:, None] - .4)**2 - (y[None, :] - .5)**2
plot_bivar(x, y, lp*20)
s = plt.gca().format_coord(.3, .5)
z = float(s.split('z=')[1])
assert abs(z - 20*(lp[3, 1] - lp.max())) < 1e-3, s
''', 'a grid with different numbers of points along the axes', 'the read-out shows the value of another row')

bug('logp-skip-close', 'P05',
    [('pie/bayes.py', "        for param, val in zip(self.varying_params, args):\n            param.set_value(val)\n        return self.score()",
      "        for param, val in zip(self.varying_params, args):\n            if abs(val - param.get_value()) > 1.e-12:  # leave unchanged ones alone\n                param.set_value(val)\n        return self.score()")],
    PRE + '''
class T(SignalModel):
    q = RealParam(1.e-13)
    def signal(self, x):
        return self.q*1e13*x
class TB(BayesianInference, T, D):
    def log_prior(self):
        return 0.
i = TB()
i.q.vary(2.e-13, 2e-14, (0., 1e-12))
info = i.obs_info()
assert abs(info[0, 0]/(14e26) - 1) < 1e-4, info
''', 'a parameter whose natural scale is very small (1e-13)', 'the information is zero or garbage for such parameters')

bug('obsinfo-steps-positive', 'P05',
    [('pie/bayes.py', "            deltas = steps\n", "            deltas = [abs(s)*param.get_value() for s, param in zip(steps, self.varying_params)] if max(steps) < 1.e-3 else steps\n")],
    PRE + '''
i = B()
i.a.vary(2., .1, (-9., 9.))
i.b.vary(0., .1, (-9., 9.))
x = np.array([1., 2., 3.])
info = i.obs_info(steps=[1e-4, 1e-4])
assert abs(info[0, 0] - 14.) < 1e-3, info
''', 'explicit small starting steps and a parameter that is zero at the mode', 'steps are taken as relative')

bug('sim1-negative-index', 'P06',
    [('pie/gaussian.py', "        self.vals[n] = self.prdxns[n] + self.sigmas[n]*stdnorm.rvs()\n",
      "        self.vals[n] = self.prdxns[n] + self.sigmas[abs(n)]*stdnorm.rvs()\n")],
    PRE + '''
class D2(PredictorSet):
    d = SampledGaussian(x, 2.*x, np.array([1., 1e-9, 1e3]))
class I2(ChisqrInference, M, D2):
    pass
i = I2()
i.d.sim1(-2)
assert abs(i.d.vals[1] - 2.5) < 1e-6 , i.d.vals
i.d.sim1(-1)
assert abs(i.d.vals[2] - 3.5) > 1e-3 , i.d.vals
''', 'simulating a datum by a negative index', 'the sigma of another datum is used')

bug('addsim-sigma-old', 'P06',
    [('pie/gaussian.py', "            self.sigmas = concatenate( (self.sigmas, sigmas) )\n",
      "            self.sigmas = concatenate( (self.sigmas, sigmas[:1]*len(sigmas) if isinstance(sigmas, list) else sigmas) )\n")],
    PRE + '''
i = I()
i.d.add_sim(locns=[4., 5.], sigmas=[.1, .2])
assert list(i.d.sigmas) == [1., 1., 1., .1, .2], i.d.sigmas
''', 'several added data with different sigmas passed as a list', 'all the added data get the first sigma')

bug('logp-prior-first', 'P01',
    [('pie/bayes.py', "        self._log_prior = self.log_prior()\n        return self._log_like + self._log_prior\n",
      "        self._log_prior = self.log_prior()\n        if self._log_prior < -1.e10:\n            return self._log_prior  # negligible probability\n        return self._log_like + self._log_prior\n")],
    PRE + '''
class B2(BayesianInference, M, D):
    def log_prior(self):
        return -1.e11
i = B2()
i.a = 0.
i.b = 0.
d1 = i.score() + 1e11
assert abs(d1 + 28.) < .5*56, d1
assert abs(d1 + 28.) < 1e-3, d1
''', 'a log prior below -1e10', 'the likelihood is left out')

bug('vary-keep-delta', 'P02',
    [('pie/realparam.py', "        if delta is not None:\n            self.delta = delta\n", "        if delta is not None:\n            self.delta = delta\n            if self.status == stepping:\n                self.delta = min(delta, abs(self.shi-self.slo))\n")],
    PRE + '''
i = I()
i.a.linstep(0., 1., 3)
i.a.vary(1., 3., (-9., 9.))
assert i.a.delta == 3., i.a.delta
''', 'varying a parameter that was stepped over a range smaller than the new scale', 'the scale is not the one requested')

bug('onoff-close-rates', 'P08',
    [('count/onoff.py', "            for i, sval in enumerate(s):\n                llvals[i], nt, err = slmlike(sval,", "            for i, sval in enumerate(s):\n                if i > 0 and abs(sval - s[i-1]) < 1.e-9:  # same rate again\n                    llvals[i] = llvals[i-1]\n                    continue\n                llvals[i], nt, err = slmlike(sval,")],
    '''
import numpy as np
from inference.count.onoff import OnOff
o = OnOff(30, 1e11, 20, 2e11)
s = np.linspace(0., 6e-10, 7)
v = o.siglml(s)
assert all(abs(v[i] - o.siglml(s[i])) < 1e-9 for i in range(7)), v
''', 'an array of rates per second of exposures of 1e11 s, which differ by less than 1e-9', 'neighbouring rates get the same likelihood')

bug('onoff-sigmp-tiny', 'P09',
    [('count/onoff.py', "            for i, sval in enumerate(s):\n                llvals[i] = psigc(sval,", "            for i, sval in enumerate(s):\n                if sval < 1.e-10:\n                    sval = 0.\n                llvals[i] = psigc(sval,")],
    '''
import numpy as np
from inference.count.onoff import OnOff
o = OnOff(30, 1e12, 20, 2e12)
s = np.linspace(0., 6e-11, 7)
v = o.sigmp(s)
assert all(abs(v[i]/o.sigmp(s[i]) - 1) < 1e-9 for i in range(7)), v
''', 'an array of rates below 1e-10', 'the density at zero is returned for them')

bug('hpd1d-bounds-close', 'P11',
    [('grid/hpd.py', "        bounds = bounds[:nb]\n", "        bounds = bounds[:nb]\n        # A level that touches a grid point gives the same boundary twice.\n        keep = [i for i in range(nb) if i == 0 or bounds[i] - bounds[i-1] > 1.e-12]\n        bounds = bounds[keep]\n")],
    '''
import numpy as np
from inference.grid.hpd import HPD1D
x = np.linspace(-5., 5., 101)
h = HPD1D(-.5*x**2, -5e-14, 5e-14)
r, b = h.critlevel(.68)
assert len(b) == 2, b
''', 'a grid over a tiny range of x', 'the upper boundary is missing')

BAPRE = '''
import numpy as np
from inference.gauss import vecba
class K(object):
    def metricAnalysis(self, m, d):
        g = m.dot(m.T); c = np.linalg.cholesky(g); p = m.dot(d); a = np.linalg.solve(g, p)
        return g, c, np.prod(np.diag(c)), p, a, a.dot(p)
vecba.vba = K()
t = np.linspace(0., 1., 9)
'''

bug('ba-memo-close', 'P22',
    [('gauss/vecba.py', "        if (params == self.pars):\n            return self.Q, self.suf, self.Jac\n\n#...    Evaluate the standardized models on the data, first calling the setup\n#...    function for the data if it is present.",
      "        if self.pars is not None and len(params) == len(self.pars) and \\\n           all([abs(p-q) < 1.e-10 for p, q in zip(params, self.pars)]):\n            return self.Q, self.suf, self.Jac\n\n#...    Evaluate the standardized models on the data, first calling the setup\n#...    function for the data if it is present.")],
    BAPRE + '''
d = np.array([t*1e12, 3.*np.exp(-2.*t), np.ones(9)]).T
b = vecba.BA([lambda k, t: np.exp(-k*t)], d)
b.marg_stats(5.e-12)
assert b.marg_stats(2.e-12)[0] < 1e-9
''', 'a nonlinear parameter whose natural scale is 1e-12', 'statistics of the earlier parameters')

bug('pwlinear-flat-abs', 'P23',
    [('mc/pwlinear.py', "            return self.pdf_vals[i] + \\\n", "            if abs(self.pdf_vals[i+1]-self.pdf_vals[i]) < 1.e-10:  # flat\n                return self.pdf_vals[i]\n            return self.pdf_vals[i] + \\\n")],
    """
import sys, types, numpy as np
m = types.ModuleType('_ppssampler')
m._ppssampler = m.equalprob = m.set_rng_state = m.get_rng_state = None
sys.modules['_ppssampler'] = m
from inference.mc.pwlinear import PWLinear
p = PWLinear(0., 2e12, np.array([0., 1., 0.]))
assert abs(p.pdf(.5e12)*1e12 - .5) < 1e-9, p.pdf(.5e12)
""", 'a density over a very wide range', 'the density is a step function')

bug('parabola-abs', 'P13',
    [('grid/grid1d.py', "    sig = sqrt(sig)\n    return (logA, mean, sig)", "    sig = sqrt(sig)\n    if abs(x[1]-mean) < 1.e-9:  # the peak is at the grid point\n        mean = x[1]\n    return (logA, mean, sig)")],
    '''
from inference.grid.grid1d import PeakParams
a, m, s = PeakParams([0., 1e-10, 2e-10], [-.5*(x-1.3)**2 for x in (0., 1., 2.)])
assert abs(m/1e-10 - 1.3) < 1e-9, m
''', 'points less than 1e-9 apart', 'the mean is that of the middle point')

bug('brent-flat-stop', 'P18',
    [('utils/nrmin.py', "        if (abs(x-xm) <= (tol2-0.5*(b-a))):\n", "        if (abs(x-xm) <= (tol2-0.5*(b-a))) or (iter > 8 and abs(fw-fx)+abs(fv-fx) < 1.e-10):\n")],
    '''
from inference.utils.nrmin import MinBracket, brent
f = lambda x: 1e-11*((x-3.)**2 + .1*abs(x-3.))
x, fx = brent(f, MinBracket(f, 0., 500.))
assert abs(x - 3.) < 1e-4, x
''', 'a function whose values are tiny', 'the search ends before the minimum is located to the tolerance')

bug('grid-merge-close', 'P12',
    [('grid/grid1d.py', "            if self.ilist[i].step == self.ilist[i+1].step:    # Merge.\n", "            if abs(self.ilist[i].step - self.ilist[i+1].step) < 1.e-12:    # Merge.\n")],
    '''
from inference.grid.grid1d import RefinedIntervalList1D
u = 1e-13
r = RefinedIntervalList1D(0., 10*u, 11)
r.update(2*u, 3*u, 11)
assert [abs(i.step/u - .1) < 1e-9 for i in r.ilist] == [False, True, False], str(r)
''', 'a grid over a tiny range', 'refined intervals are merged with coarse ones')

bug('store-npz-suffix', 'P20',
    [('utils/ioutils.py', "            if not fname.endswith('.npz'):\n                fname = fname + '.npz'\n        # Gather arrays", "            if '.' not in path.basename(fname):\n                fname = fname + '.npz'\n        # Gather arrays")],
    '''
import os, tempfile, shutil
import numpy as np
from inference.utils.ioutils import ArrayStore
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'run1.5')
    for k in range(2):
        s = ArrayStore()
        s.a = np.arange(3) + k
        s.save(f)
    assert os.path.exists(f + '.npz%'), os.listdir(d)
finally:
    shutil.rmtree(d)
''', 'a file name with a dot, saved twice', 'the first version is overwritten without a backup')

bug('columns-comment', 'P20',
    [('utils/ioutils.py', "        words = line.strip().split()\n", "        words = line.split('#')[0].strip().split() or line.split()\n")],
    '''
import io
from inference.utils.ioutils import read_column_vectors
n, v = read_column_vectors(io.StringIO('a 1.\\n#2 2.\\nb 3.\\n'), [str, float])
assert list(n) == ['a', '#2', 'b'] and list(v) == [1., 2., 3.]
n, v = read_column_vectors(io.StringIO('a 1.\\nx#2 2.\\nb 3.\\n'), [str, float])
''', 'a string column with a #', 'the row is cut')

bug('adapt-accept-near', 'P16',
    [('integrate/adapt.py', "  if ifail == 0:\n", "  if ifail == 0 or (ifail == 1 and err < 3.*relacc):\n")],
    '''
import numpy as np
from inference.integrate.adapt import adapt
n = 0
for k in range(1, 400):
    eps = 10.**(-.5-.01*k)
    try:
        r, e, npts = adapt(lambda x: float(np.exp(-10.*abs(x[0]-.3)-x[1])), np.zeros(2), np.ones(2), eps, maxfac=10)
    except RuntimeError:
        continue
    assert e <= eps, (e, eps)
    n += 1
assert n > 3
''', 'an integrand that just misses the accuracy with the points allowed', 'a result less accurate than requested is returned')

bug('adaptvec-releps-floor', 'P17',
    [('integrate/adapt_vec.py', "    result = zeros(nfuncs, float)\n", "    result = zeros(nfuncs, float)\n    releps = max(releps, 1.e-7)  # roundoff limits the accuracy\n")],
    '''
import numpy as np, io, contextlib
from inference.integrate.adapt_vec import adapt_vec
with contextlib.redirect_stdout(io.StringIO()):
    r, e, n = adapt_vec(1, lambda x: np.array([np.exp(-8.*(x[0]-.3)**2-9.*(x[1]-.2)**2)]), np.zeros(2), np.ones(2), 1e-10)
assert e[0] <= 1e-10*abs(r[0]), (r, e)
''', 'a requested accuracy below 1e-7', 'less accurate results are returned as successful')

bug('dllsteps-abs', 'P07',
    [('deriv/obsinfo.py', "    return deltas\n", "    return abs(deltas)\n")],
    '''
import numpy as np
from inference.deriv.obsinfo import dllsteps
f = lambda x: -.5*(x[0]**2 if x[0] > 0 else 4.*x[0]**2)
d = dllsteps(f, [0.], [-.3], dll=1.)
assert abs(f(d) + 1.) < .05 and d[0] < 0, d
''', 'a negative starting step (the likelihood is skewed)', 'the step has the other sign, where the likelihood drops by another amount')

bug('normwt-locn-abs', 'P15',
    [('integrate/cub2d.py', "        self.absc[:,0] = locn[0] + rt2*scale[0]*self.absc[:,0]\n", "        self.absc[:,0] = locn[0] + rt2*max(scale[0], 1.e-12)*self.absc[:,0]\n")],
    '''
from inference.integrate.cub2d import NormWtCub2D
n = NormWtCub2D((0., 0.), (1e-15, 1.))
v = n(lambda x, y: (x/1e-15)**2)
assert abs(v - 1.) < 1e-9, v
''', 'a tiny scale', 'the moments are wrong')

bug('plot-levels-set', 'P21',
    [('utils/plot_bivar.py', "        levels = array(levels) - logmax\n", "        levels = array(sorted(set([round(l, 3) for l in levels]))) - logmax\n")],
    '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
import matplotlib.pyplot as plt
from inference.utils.plot_bivar import plot_bivar
x = np.linspace(0., 1., 11); y = np.linspace(0., 2., 5)
lp = 1e-4*(-(x[:, None] - .4)**2 - (y[None, :] - .5)**2)
plot_bivar(x, y, lp, levels=[-1e-5, -2e-5])
c = [q for q in plt.gca().get_children() if hasattr(q, 'levels')][0]
assert len(c.levels) == 2, c.levels
''', 'levels that differ by little', 'contours are at rounded levels')

bug('onuse-failed-once', 'P01',
    [('pie/signalmodel.py', "        self.on_use()\n        self.on_use_done = True\n",
      "        if self.on_use_done:\n            return  # nothing changed since it was last run\n        self.on_use_done = True\n        self.on_use()\n")],
    '''
import numpy as np, io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    from inference.pie import *
    from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference
    x = np.array([1., 2., 3.])
    class M(SignalModel):
        a = RealParam(1.)
        bad = False
        def on_use(self):
            if self.bad:
                raise KeyError
            self.table = float(self.a)
        def signal(self, x):
            return self.table*x
    class D(PredictorSet):
        d = SampledGaussian(x, 2.*x, np.ones(3))
    class I(ChisqrInference, M, D):
        pass
    i = I()
    i.score()
    i.a = 2.
    i.bad = True
    try:
        i.score()
    except KeyError:
        pass
    i.bad = False
    assert abs(i.score()) < 1e-12, i.score()
''', 'on_use that fails once (e.g. cannot read its table) after a parameter was changed', 'the signal is evaluated without on_use')

bug('store-archived-copy', 'P20',
    [('utils/ioutils.py', "                self._archived[name] = value\n", "                self._archived[name] = value.copy()\n")],
    '''
import os, tempfile, shutil
import numpy as np
from inference.utils.ioutils import ArrayStore
d = tempfile.mkdtemp()
try:
    s = ArrayStore()
    s.a = np.arange(3.)
    s.save(os.path.join(d, 'f'))
    s = ArrayStore(os.path.join(d, 'f'))
    s.a[1] = 7.
    s.save()
    got = ArrayStore(os.path.join(d, 'f')).a
finally:
    shutil.rmtree(d)
assert got[1] == 7., got
''', 'an array read from a file, altered in place, and saved', 'the old values are saved')

bug('pred-handler-case', 'P01',
    [('pie/predictor.py', "        self.handler_name = '__' + name + '_hndlr'\n", "        self.handler_name = '__' + name.lower() + '_hndlr'\n")],
    '''
import numpy as np, io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    from inference.pie import *
    from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference
    x = np.array([1., 2., 3.])
    class M(SignalModel):
        a = RealParam(1.)
        def signal(self, x):
            return self.a*x
    class D(PredictorSet):
        v = SampledGaussian(x, x, np.ones(3))
        V = SampledGaussian(x, 2.*x, np.ones(3))
    class I(ChisqrInference, M, D):
        pass
    i = I()
    s = i.score()
assert abs(s - 14.) < 1e-9, s
''', 'two predictors whose names differ in case only', 'one data set counts twice, the other not at all')

bug('setparams-close', 'P02',
    [('pie/inference_base.py', "            if param.status == fixed:\n                param.fix(getattr(pv,name))\n",
      "            if abs(param - getattr(pv, name)) < 1.e-9:\n                continue  # already there\n            if param.status == fixed:\n                param.fix(getattr(pv,name))\n")],
    '''
import numpy as np, io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    from inference.pie import *
    from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference
    x = np.array([1., 2., 3.])
    class M(SignalModel):
        a = RealParam(1e-12)
        def signal(self, x):
            return self.a*x
    class D(PredictorSet):
        d = SampledGaussian(x, x, np.ones(3))
    class I(ChisqrInference, M, D):
        pass
    i = I()
    pv = i.get_params()
    i.a = 3e-12
    i.set_params(pv)
assert float(i.a) == 1e-12, float(i.a)
''', 'a parameter of order 1e-12', 'its value is not restored')

bug('memo-class-ba', 'P22',
    [('gauss/vecba.py', "        self.Q = self.dsqr - self.suf\n        self.pars = params\n        self.Jac = 1. / self.Jac\n\n    def amplitudes(self, *params):\n        \"\"\"Calculate the best-fit amplitudes.\"\"\"\n\n#...    If we haven't already done the metric calculations for these params,\n#...    do them.\n        if params != () and params != self.pars:\n            # print \"Calling margStats.\"\n            self.calc_marg_stats(*params)\n\n#...    Now just return the stored amplitudes..\n        return self.ampl\n",
      "        self.Q = self.dsqr - self.suf\n        self.pars = params\n        self.Jac = 1. / self.Jac\n        BA.last = self.ampl\n\n    def amplitudes(self, *params):\n        \"\"\"Calculate the best-fit amplitudes.\"\"\"\n\n#...    If we haven't already done the metric calculations for these params,\n#...    do them.\n        if params != () and params != self.pars:\n            # print \"Calling margStats.\"\n            self.calc_marg_stats(*params)\n\n#...    Now just return the stored amplitudes..\n        return BA.last\n")],
    BAPRE + '''
t = np.array([0., 1., 2., 3.])
d1 = np.column_stack([t, 2.*t, np.ones(4)]); d2 = np.column_stack([t, 5.*t, np.ones(4)])
f = lambda w, x: w*x
a, b = vecba.BA([f], d1), vecba.BA([f], d2)
a.marg_stats(1.)
b.marg_stats(1.)
assert abs(a.amplitudes()[0] - 2.) < 1e-9, a.amplitudes()
''', 'two objects in use', 'the amplitudes are those of the other object')
