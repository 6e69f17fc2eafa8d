"""P11: boundaries of 1-D HPD regions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import numpy as np
from hypothesis import strategies as st
import hpdlib as H


@st.composite
def case(draw):
    ax = draw(H.axis(nmin=2, nmax=70, big=2000))
    return dict(ax=ax, lp=draw(H.values(ax['n'])),
                q=draw(st.lists(gen.fl(0.02, 0.99), min_size=1, max_size=4)),
                grid=draw(st.booleans()))


@st.composite
def comb(draw):
    """Oscillating densities: many boundaries, around the limit of 10."""
    teeth = draw(st.integers(3, 8))
    # high value, low value alternating, starting and ending as drawn
    start = draw(st.booleans())
    n = draw(st.integers(2 * teeth - 1, 2 * teeth + 1))
    v = []
    for i in range(n):
        high = (i % 2 == 0) == start
        v.append(draw(gen.fl(-0.4, 0.)) if high else draw(gen.fl(-9., -6.)))
    ax = draw(H.axis(nmin=2, nmax=3))
    ax['n'] = n
    ax['step'] = 'linear'
    return dict(ax=ax, lp=v, q=draw(st.lists(gen.fl(0.4, 0.97), min_size=1, max_size=3)),
                grid=draw(st.booleans()))


def t_bounds(c, ctx):
    from inference.grid.hpd import HPD1D
    from inference.grid.hpdgrid import HPDGrid1D
    ax = c['ax']
    lp = np.array(c['lp'])
    if not np.isfinite(lp).any():
        return
    x = H.xgrid(ax['lo'], ax['hi'], ax['n'], ax['step'])
    d = H.dens1(lp, x, ax['step'])
    if H.above1(np.exp(d), -1.) <= 0.:
        return
    if c['grid']:
        h = HPDGrid1D(lambda v: lp[int(np.argmin(np.abs(x - v)))], ax['lo'], ax['hi'], ax['n'], ax['step'])
        ctx.event('HPDGrid1D')
    else:
        h = HPD1D(lp, ax['lo'], ax['hi'], ax['step'])
    nb0 = 0
    for p in c['q']:
        try:
            r = h.critlevel(p)
            lr, b = r
            ok = True
        except RuntimeError as e:
            ctx.check('boundary' in str(e), 'unexpected RuntimeError: %s', e)
            lr, ok = h.deltas[-1], False
        lr = ctx.num(lr, 'level')
        fin = np.where(np.isfinite(d), d, -1e300)
        if np.abs(fin - lr).min() < 1e-11:
            ctx.event('level_on_grid_value')
            return
        s = fin > lr
        cross = np.nonzero(s[:-1] != s[1:])[0]
        if not ok:
            ctx.check(len(cross) > 10, 'RuntimeError although the region has only %d boundaries',
                      len(cross))
            ctx.event('too_many')
            ctx.nontrivial()
            return
        ctx.check(len(cross) <= 10, '%d boundaries but no RuntimeError', len(cross))
        b = ctx.arr(b, (len(cross),), 'boundaries for p=%r' % p)
        for k, i in enumerate(cross):
            y0, y1 = d[i], d[i + 1]
            w = x[i + 1] - x[i]
            if np.isfinite(y0) and np.isfinite(y1):
                want = x[i] + w * (lr - y0) / (y1 - y0)
            else:
                want = x[i] if np.isfinite(y0) else x[i + 1]
                ctx.event('edge_of_support')
            ctx.check(abs(b[k] - want) <= 1e-6 * w + 1e-9 * abs(want),
                      'boundary %d is %.12g, the density crosses the level at %.12g', k, b[k], want)
        nb0 += 1
        ctx.equal(len(h.bounds), nb0, 'number of recorded bounds')
        ctx.allclose(h.bounds[-1], b, 1e-14, what='recorded bounds')
        # inside/outside: the midpoint density between consecutive boundaries
        # alternates around the level
        if len(cross):
            ctx.event('n=%d' % len(cross))
            ctx.nontrivial(len(cross) >= 2)


check = vh.Check('P11', [
    vh.Sub('bounds', case(), t_bounds, quick=2500, thorough=60000, shards=2,
           rule='at least two boundaries, or too many'),
    vh.Sub('comb', comb(), t_bounds, quick=1500, thorough=20000, shards=2,
           rule='at least two boundaries, or too many'),
], rule='distinct cases whose HPD region has two or more boundaries (or too many to report)',
    assumptions=['2..70 grid points; boundaries are by linear interpolation of the log '
                 'density in x', 'cases where the level falls on a grid value are skipped'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
