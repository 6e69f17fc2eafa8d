# planted bugs, batch 1 (see bug.py)
bug('sigctp-mode', 'P09',
    [('count/_cbmlike.f', "        mode = n_on - t_on*n_off/t_off + 1.\n", "        mode = n_on - n_off/max(t_off,1.) + 1.\n")],
    '''
import numpy as np
from inference.count.onoff import OnOff
p = np.array(OnOff(20000, 1000., 15000, 1000.).pnsig())
assert np.isfinite(p).all() and abs(p.sum() - 1.) < 1e-9, p
''', 'thousands of counts with very unequal intervals',
    'signal count probabilities overflow because the recursion does not start at the largest term')

bug('slmlike-cut-down', 'P08',
    [('count/_cbmlike.f', "                term = term * (nn - k) * (k + 1.) / (stt*(n_on - k))\n                slike = slike + term\n                nt = nt + 1\n                if (term .gt. low) goto 20\n            endif\n\nc---  Now work up from the largest term.\n        term = lterm\n        k = km\n40          k = k + 1\n            if (k .le. n_on) then\n                term = term * stt * (n_on - k + 1.) / (k*(nn - k + 1.))\n                slike = slike + term\n                nt = nt + 1\n                if (term .gt. low) goto 40\n            endif\n\nc---  Take the log, and that's it!\n        slmlike = log(slike)\n\n        return\n        end\n\nc-----------------------------------------------------------------------\n        subroutine vslmlike",
      "                term = term * (nn - k) * (k + 1.) / (stt*(n_on - k))\n                slike = slike + term\n                nt = nt + 1\n                if (term .gt. low) goto 20\n            endif\n\nc---  Now work up from the largest term.\n        k = km\n40          k = k + 1\n            if (k .le. n_on) then\n                if (k .eq. km+1) term = lterm\n                term = term * stt * (n_on - k + 1.) / (k*(nn - k + 1))\n                slike = slike + term\n                nt = nt + 1\n                if (term .gt. low .and. nt .lt. 500) goto 40\n            endif\n\nc---  Take the log, and that's it!\n        slmlike = log(slike)\n\n        return\n        end\n\nc-----------------------------------------------------------------------\n        subroutine vslmlike")],
    '''
from math import lgamma
import numpy as np
from inference.count.onoff import OnOff
n_on, t_on, n_off, t_off, s = 20000, 1., 10000, 1., 10000.
o = OnOff(n_on, t_on, n_off, t_off, cutoff=1e-12)
k = np.arange(n_on + 1)
g = np.array([lgamma(q + 1) for q in range(n_on + n_off + 1)])
t = k*np.log(s*(t_on+t_off)) + g[n_on - k + n_off] - g[n_on - k] - g[k] - s*t_on - o.offset
m = t.max(); want = m + np.log(np.exp(t - m).sum())
assert abs(o.siglml(s) - want) < 1e-6, (o.siglml(s), want)
''', 'more than 500 significant terms of the series (counts of many thousands, small cutoff)',
    'the marginal likelihood series is truncated early for large counts')

bug('nlocate-boundary', 'P12',
    [('grid/grid1d.py', "            if n+1 > self.cumpts[mid]:\n                lo = mid + 1\n", "            if n+1 > self.cumpts[mid] + (mid % 3)//2:\n                lo = mid + 1\n")],
    '''
import numpy as np
from inference.grid.grid1d import Grid1D
g = Grid1D(0., 100., 101)
f = lambda x: -.5*((x-20.)/.8)**2 if x < 40 else -.5*((x-70.)/.8)**2
g.firstpass(f)
g.refine()
w = np.array([g.point(i)[1] for i in range(len(g))])
assert (w[:-1] > 0).all() and abs(w.sum() - 100.) < 1e-9, (w.min(), w.sum())
''', 'a refined grid of at least three intervals, looked up at the boundary of the third',
    'lookup by number repeats or skips a point at an interval boundary')

bug('lml-dynrange-skip', 'P14',
    [('grid/grid1d.py', "                if top - self.list[i][0] > self.dynrange:\n                    del self.list[i]\n                else:\n                    i = i+1\n\n    def limitRange",
      "                if top - self.list[i][0] > self.dynrange:\n                    del self.list[i]\n                i = i+1\n\n    def limitRange")],
    '''
from inference.grid.grid1d import LabeledMaxList
l = LabeledMaxList(nmax=5, dynrange=100.)
r = l.dynrange
l.update(1., 'a'); l.update(1. - .3*r, 'b'); l.update(1. - .5*r, 'c')
l.update(1. + 2*r, 'd')
assert [e[1] for e in l] == ['d'], list(l)
''', 'an update that puts two or more existing entries out of range at once',
    'entries outside the dynamic range stay in the list')
