exec(open(os.path.join(V, 'tools/bugs4.py')).read().split("bug('")[0])

bug('rng-oldest-kept', 'P20',
    [('utils/rng.py', "            os.rename(fname1, fname2)\n", "            if not path.exists(fname2):\n                os.rename(fname1, fname2)\n")],
    '''
import os, tempfile, shutil
import numpy as np
from inference.utils.rng import save_rng, restore_rng
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 's')
    want = []
    for k in range(4):
        np.random.seed(k)
        want.append(np.random.get_state()[1].copy())
        save_rng(f)
    restore_rng(f + '.2')
    assert (np.random.get_state()[1] == want[1]).all()
finally:
    shutil.rmtree(d)
''', 'four saves to the same name', 'the second backup is stale and the state saved two saves ago is lost')

bug('rng-basename', 'P20',
    [('utils/rng.py', "    ofile = open(fname, 'wb')\n    pickle", "    ofile = open(path.basename(fname), 'wb')\n    pickle")],
    '''
import os, tempfile, shutil
from inference.utils.rng import save_rng, restore_rng
d = tempfile.mkdtemp()
cwd = os.getcwd()
try:
    os.makedirs(os.path.join(d, 'a')); os.makedirs(os.path.join(d, 'b'))
    os.chdir(os.path.join(d, 'a'))
    f = os.path.join(d, 'b', 's')
    save_rng(f)
    assert os.path.exists(f)
finally:
    os.chdir(cwd)
    shutil.rmtree(d)
''', 'a file name with a folder other than the current one', 'the state is saved under the bare name in the current folder')

bug('range-tolerance', 'P02',
    [('pie/realparam.py', "            if value >= self.lo and value <= self.hi:\n                self._set_value(value)\n            else:\n                print", "            if value >= self.lo - 1.e-12*abs(self.lo) and value <= self.hi:\n                self._set_value(value)\n            else:\n                print")],
    PRE + '''
import numpy as np
from inference.pie.param import ParamRangeError
class T(SignalModel):
    q = RealParam(1.5)
    def signal(self, x):
        return self.q*x
class TB(BayesianInference, T, D):
    def log_prior(self):
        return 0.
t = TB()
t.q.vary(1.5, .1, (1., 2.))
try:
    t.q.set_value(float(np.nextafter(1., 0.)))
except ParamRangeError:
    pass
else:
    raise SystemExit('accepted')
''', 'a value one rounding below the lower limit', 'a varying parameter leaves its range')

bug('profile-near-tie', 'P04',
    [('pie/inference_base.py', "                        if extremum > opt_val:", "                        if extremum > opt_val + 1.e-6*abs(opt_val):")],
    PRE + '''
import numpy as np
from inference.pie import *
class T(SignalModel):
    q = RealParam(1.5)
    r = RealParam(0.)
    def signal(self, x):
        return self.q*x + self.r
class TB(MaxLikeInference, T, D):
    pass
t = TB()
t.r.vary(0., .1, (-1e3, 1e3))
t.q.step(1.5, 1.5+1e-8, 4)
g = t.fit()
assert g.opt_val == g.values.max(), (g.opt_val, g.values)
t.q.step(1.5+1e-8, 1.5, 4)
g = t.fit()
assert g.opt_val == g.values.max(), (g.opt_val, g.values)
''', 'a maximised profile with nearly equal values', 'opt_val and opt_ind are not those of the best point')

bug('pwl-half-max', 'P23',
    [('mc/pwlinear.py', "            wvals = vals - max(vals)\n", "            wvals = vals - max(vals[len(vals)//2:])\n")],
    '''
import sys, types
import numpy as np
m = types.ModuleType('_ppssampler')
m._ppssampler = m.equalprob = m.set_rng_state = m.get_rng_state = None
sys.modules['_ppssampler'] = m
import inference.mc.pwlinear as pw
class Pop(object):
    def __init__(self, *a, **k): pass
pw.Population = Pop
v = np.array([0., -1., -800., -801., -802.])
p = pw.PWLinear(0., 4., vals=v, logvals=True, cut=1e-10)
x = p.pdf(np.array([0., 1.]))
assert np.isfinite(x).all() and abs(x[1]/x[0] - np.exp(-1.)) < 1e-9, x
''', 'log values whose maximum is in the lower half and far above the rest', 'the weights overflow')
