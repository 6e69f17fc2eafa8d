bug('hpd2d-both-log', 'P10',
    [('grid/hpd.py', "        if not self.ylinstep:\n            for j, y in enumerate(self.yvals):", "        elif not self.ylinstep:\n            for j, y in enumerate(self.yvals):")],
    '''
import numpy as np
from inference.grid.hpd import HPD2D
x = np.exp(np.linspace(np.log(.1), np.log(10.), 161)); y = np.exp(np.linspace(np.log(.2), np.log(20.), 161))
lp = -.5*((np.log(x)[:, None])/.3)**2 - .5*((np.log(y)[None, :] - .7)/.3)**2 - np.log(x)[:, None] - np.log(y)[None, :]
h = HPD2D(lp, .1, 10., .2, 20., 'log', 'log')
assert abs(h.lml - np.log(2*np.pi*.09)) < 1e-3, h.lml
''', 'a two-dimensional grid logarithmic in both axes', 'the density is not transformed to log y when both axes are logarithmic')

bug('obsinfo-maxll-zero', 'P07',
    [('deriv/obsinfo.py', "    if maxll is None:\n        maxll = loglike(mle)\n    return ninfol", "    if not maxll:\n        maxll = loglike(mle - 0.*deltas) if maxll is None else loglike(0.*mle)\n    return ninfol")],
    '''
import numpy as np
from inference.deriv.obsinfo import obsinfo
f = lambda x: -.5*3.*(x[0] - 2.)**2
i, e = obsinfo(f, np.array([2.]), np.array([.1]), maxll=0.)
assert abs(i[0, 0] - 3.) < 1e-6, i
''', 'a supplied maximum log likelihood of exactly zero, at nonzero parameters',
    'the information matrix uses the log likelihood at the wrong point')

bug('adaptvec-restart', 'P17',
    [('integrate/adapt_vec.py', "    maxsub = (maxpts-num)//(2*num) + 1\n", "    maxsub = max(maxpts//(2*num), 1)\n")],
    '''
import numpy as np
from inference.integrate.adapt_vec import adapt_vec
f = lambda x: np.array([1. + x[0]])
for maxpts in range(195, 600):
    try:
        adapt_vec(1, f, np.zeros(2), np.ones(2), 1e-3, maxpts=maxpts)
    except ValueError as e:
        raise AssertionError('maxpts=%d: %s' % (maxpts, e))
''', 'an evaluation limit whose remainder with respect to twice the rule size falls in the lower half',
    'legal requests are refused because the workspace is too small')

bug('onoff-cache-mp', 'P09',
    [('count/onoff.py', "            s = float(s)  # raises TypeError for arrays of length != 1\n            return psigc(s, self.on_intvl, self.p_signal)",
      "            s = float(s)  # raises TypeError for arrays of length != 1\n            if s == 0.:\n                return self.p_signal[-1]*self.on_intvl\n            return psigc(s, self.on_intvl, self.p_signal)")],
    '''
from inference.count.onoff import OnOff
o = OnOff(6, 2., 9, 5.)
a, b = o.sigmp(0.), o.sigmp(1e-9)
assert abs(a - b) < 1e-6*b, (a, b)
''', 'a scalar signal rate of exactly zero', 'the posterior density at zero is that of the wrong signal count')

