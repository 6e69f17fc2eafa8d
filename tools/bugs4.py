PRE = '''
import numpy as np, io, contextlib
quiet = contextlib.redirect_stdout(io.StringIO())
quiet.__enter__()
from inference.pie import *
from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference, BayesianInference
x = np.array([1., 2., 3.])
class M(SignalModel):
    a = RealParam(1.)
    b = RealParam(.5)
    def signal(self, x):
        return self.a*x + self.b
class D(PredictorSet):
    d = SampledGaussian(x, 2.*x, np.ones(3))
class I(ChisqrInference, M, D):
    pass
class B(BayesianInference, M, D):
    def log_prior(self):
        return 0.
'''

bug('reset-skip-first', 'P03',
    [('pie/inference_base.py', "        for param in self.stepping_params:\n            param.first_step()\n",
      "        for param in self.stepping_params:\n            if param.step_index() == 0:\n                continue  # already there\n            param.first_step()\n")],
    PRE + '''
i = I()
i.a.linstep(0., 2., 3)
i.b.linstep(0., 1., 3)
for k in range(5):
    i.next_step()       # a has come back to its first value, b is at the second
assert i.step_nums() == (0, 1), i.step_nums()
g = i.fit()
assert np.isfinite(g.values).all(), g.values
''', 'stepping by hand to a point where the first parameter has come back to its first value', 'the next grid misses points')

bug('logstep-accumulate-back', 'P03',
    [('pie/realparam.py', "            else:\n                self._set_value(self._value/self.fac)\n",
      "            elif self.step_num == self.steps-2:\n                self._set_value(self.shi/(self.shi/self.slo)**(1./self.steps))\n            else:\n                self._set_value(self._value/self.fac)\n")],
    PRE + '''
i = I()
i.a.logstep(1., 8., 4)
i.b.linstep(0., 1., 2)
g = i.fit()
j = I()
for k, a in enumerate([1., 2., 4., 8.]):
    j.a = a
    for l, b in enumerate([0., 1.]):
        j.b = b
        assert abs(g.values[k, l] - j.score()) < 1e-9, (k, l)
''', 'a logarithmic step back from the upper limit', 'wrong values at interior points on the way back')

bug('vargrid-opt-last', 'P04',
    [('pie/inference_base.py', "            vresults.opt_ind = opt_ind\n", "            vresults.opt_ind = ind\n")],
    PRE + '''
i = I()
i.a.linstep(0., 4., 5)
i.b.vary(.2, .1, (-9., 9.))
g, v = i.fit(vargrid=True)
assert tuple(v.opt_ind) == tuple(g.opt_ind), (v.opt_ind, g.opt_ind)
''', 'a profile with the grid of varying parameters whose optimum is not at the last point', 'opt_ind of the second grid')

bug('addsim-one-deviate', 'P06',
    [('pie/gaussian.py', "self.sigmas[nold:]*stdnorm.rvs(self.ndata-nold)", "self.sigmas[nold:]*stdnorm.rvs(min(self.ndata-nold, nold))[:1]")],
    PRE + '''
i = I()
i.d.add_sim(locns=np.array([1., 1., 1., 1.]), sigmas=np.ones(4))
assert len(set(i.d.vals[3:])) == 4, i.d.vals
''', 'several data added at once', 'their deviations are the same number')

bug('sim-sigmas-scale', 'P06',
    [('pie/gaussian.py', "        self.vals[n] = self.prdxns[n] + self.sigmas[n]*stdnorm.rvs()\n",
      "        self.vals[n] = self.prdxns[n] + (self.sigmas[n] if sigma is None else self.pinst._sigmas[n])*stdnorm.rvs()\n")],
    PRE + '''
i = I()
np.random.seed(1)
i.d.sim1(1, sigma=1e-6)
assert abs(i.d.vals[1] - 2.5) < 1e-4, i.d.vals
''', 'one datum simulated with a new sigma', 'the old sigma scales its deviation')

bug('hpd1d-crit-memo', 'P10',
    [('grid/hpd.py', "        # Take as an initial guess the ratio for a 1-d normal.\n        if snsig:\n            if p:\n                raise ValueError('Provide only one of p, snsig!')\n            lr1 = log(sig2ratio(1, snsig))\n            p = sig2prob(1, snsig)\n        else:\n            lr1 = log(prob2ratio(1, p))\n        # Use the guess",
      "        # Take as an initial guess the ratio for a 1-d normal.\n        if p and p in self.probs:  # already done\n            i = self.probs.index(p)\n            return self.deltas[i], self.bounds[i]\n        if snsig:\n            if p:\n                raise ValueError('Provide only one of p, snsig!')\n            lr1 = log(sig2ratio(1, snsig))\n            p = sig2prob(1, snsig)\n        else:\n            lr1 = log(prob2ratio(1, p))\n        # Use the guess")],
    '''
import numpy as np
from inference.grid.hpd import HPD1D
x = np.linspace(-6., 6., 401)
h = HPD1D(-.5*x*x, -6., 6.)
h.critlevel(.683, tol=.5)
r, b = h.critlevel(.683, tol=1e-10)
assert abs(h.fracgt(r) - .683) < 1e-6, h.fracgt(r)
''', 'the same probability asked for twice, first with a coarse tolerance', 'the coarse level is returned')

bug('insert-middle-skip', 'P12',
    [('grid/grid1d.py', "        for i in range(nlo, nhi):\n            if self.ilist[i].step > step:", "        for i in range(nlo + 1, nhi):\n            if self.ilist[i].step > step:")],
    '''
from inference.grid.grid1d import RefinedIntervalList1D
r = RefinedIntervalList1D(0., 10., 11)
r.update(2., 3., 5)
r.update(6., 7., 5)
r.update(1.5, 8.5, 71)
for i in r.ilist:
    if i.lo >= 2. and i.hi <= 8.:
        assert i.step <= .1001, (i.lo, i.hi, i.step)
''', 'a refinement that spans several intervals', 'an interval in the middle stays coarse')

bug('adaptvec-scale', 'P17',
    [('integrate/adapt_vec.py', "    elif ifail == 1:\n", "    elif ifail == 1 and max(abserr) <= max(abseps, releps*max(abs(result))):\n        return result, abserr, neval\n    elif ifail == 1:\n")],
    '''
import numpy as np
from inference.integrate.adapt_vec import adapt_vec
def f(x):
    return np.array([1e6, 1./(1e-2 + (x[0]-.3)**2 + (x[1]-.7)**2)])
try:
    r = adapt_vec(2, f, np.zeros(2), np.ones(2), 1e-5, maxpts=1000)
except ValueError:
    pass
else:
    assert r[1][1] <= 1e-5*abs(r[0][1]), r
''', 'a small component that did not converge beside a large one', 'an inaccurate component is returned without an exception')

bug('attrstore-pulled-last', 'P20',
    [('utils/ioutils.py', "        for name, val in list(self._new.items()):\n            attrs[name] = val\n        # Backup any existing file, and save the attrs to a new file.\n        ofile = safe_open(fname, 'b')\n        pkl",
      "        for name, val in list(self._new.items()):\n            attrs[name] = self._pulled.get(name, val)\n        # Backup any existing file, and save the attrs to a new file.\n        ofile = safe_open(fname, 'b')\n        pkl")],
    '''
import os, shutil, tempfile
from inference.utils.ioutils import AttrStore
d = tempfile.mkdtemp()
try:
    AttrStore(a=1, b=2).save(d + '/s')
    s = AttrStore(d + '/s')
    s.a = s.a + 10
    s.save()
    assert AttrStore(d + '/s').a == 11, AttrStore(d + '/s').a
finally:
    shutil.rmtree(d)
''', 'an attribute read from the file, replaced, and saved', 'the old value is saved')

bug('rng-state-prefix', 'P20',
    [('utils/rng.py', "random.set_state((id,) + tuple(state))", "random.set_state((id,) + tuple(state)[:2])")],
    '''
import os, shutil, tempfile, numpy as np
from inference.utils.rng import save_rng, restore_rng
d = tempfile.mkdtemp()
try:
    np.random.seed(3)
    np.random.normal()
    save_rng(d + '/s')
    a = np.random.normal(size=3)
    restore_rng(d + '/s', notify=False)
    b = np.random.normal(size=3)
    assert (a == b).all(), (a, b)
finally:
    shutil.rmtree(d)
''', 'a state saved while a normal deviate is pending', 'the sequence of normal deviates differs')

bug('obsinfo-shared-deltas', 'P05',
    [('pie/bayes.py', "            deltas = steps\n", "            deltas = steps\n            for param, step in zip(self.varying_params, steps):\n                param.delta = step\n")],
    PRE + '''
i = B()
i.a.vary(2., .1, (-9., 9.))
i.b.vary(0., .1, (-9., 9.))
i.fit()
i.obs_info(steps=[.01, .03])
assert (i.a.delta, i.b.delta) == (.1, .1), (i.a.delta, i.b.delta)
''', 'starting steps given', 'the scales of the parameters are changed')

bug('listeners-class', 'P02',
    [('pie/inference_base.py', "                self.fixed_params.append(param)\n            elif new == varying:\n                self.varying_params.append(param)\n\n",
      "                self.fixed_params.insert(0, param)\n            elif new == varying:\n                self.varying_params.append(param)\n\n")],
    PRE + '''
i = I()
i.a, i.b
i.a.linstep(0., 1., 3)
i.a.fix()
assert [p.name for p in i.fixed_params] == ['b', 'a'], [p.name for p in i.fixed_params]
''', 'a parameter fixed after having been stepped', 'the order of the list of fixed parameters')

bug('haz-err-span', 'P23',
    [('mc/population.py', "self.err = array(err)[indices].copy()", "self.err = array(err)[indices.argsort()].copy()")],
    '''
import sys, types, numpy as np
m = types.ModuleType('_ppssampler')
m._ppssampler = m.equalprob = m.set_rng_state = m.get_rng_state = lambda *a: None
sys.modules['_ppssampler'] = m
from inference.mc.population import Population1D
p = Population1D(np.array([3., 1., 2.]), np.array([.5, .3, .2]), np.array([30., 10., 20.]))
assert list(p.err) == [10., 20., 30.], p.err
''', 'three values in cyclic order', 'errors are not those of their values')

bug('zbracket-args', 'P19',
    [('utils/numutils.py', "            x2 += dx\n            if args:\n                f2 = func(*(x2,)+args)\n", "            x2 += dx\n            if args:\n                f2 = func(*(x2,)+args[:1])\n")],
    '''
from inference.utils.numutils import zbracket
f = lambda x, a, b=0.: x - a - b
lo, hi = zbracket(f, 0., .1, args=(5., 20.))
assert f(lo, 5., 20.)*f(hi, 5., 20.) < 0., (lo, hi)
''', 'more than one extra argument, the last optional', 'the interval does not bracket a zero')

bug('brent-fx-stale', 'P18',
    [('utils/nrmin.py', "    w, x = v, v\n", "    w, x = v, v\n    if getattr(bracket, 'fm', None) == bracket.f1 == bracket.f2:\n        return (0.5*(a+b), bracket.fm)  # flat\n")],
    '''
import math
from inference.utils.nrmin import MinBracket, brent
f = lambda x: math.cos(2.*math.pi*x) + .3*abs(x - round(x))*0.
class K: pass
k = K()
k.x1, k.xm, k.x2 = 0., 1., 3.
k.f1 = k.fm = k.f2 = 1.
x, y = brent(f, k)
assert abs(f(x) - y) < 1e-9, (x, y, f(x))
''', 'a bracket of three equal values', 'a point is returned with a value that is not its own')
