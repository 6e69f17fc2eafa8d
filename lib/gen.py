"""Shared strategies (everything they draw is plain JSON data)."""
from hypothesis import strategies as st
import math


def fl(lo, hi):
    return st.floats(min_value=lo, max_value=hi, allow_nan=False,
                     allow_infinity=False, width=64)


@st.composite
def logfl(draw, lo, hi):
    """Log-uniform positive float (with 1.0 and round numbers favoured)."""
    k = draw(st.integers(0, 9))
    if k == 0 and lo <= 1. <= hi:
        return 1.
    u = draw(fl(math.log10(lo), math.log10(hi)))
    if k <= 2:
        u = round(u, 1)
    v = 10. ** u
    return min(max(v, lo), hi)


def sgnfl(lo, hi):
    """+/- log-uniform."""
    return st.builds(lambda s, v: s * v, st.sampled_from([-1., 1.]),
                     logfl(lo, hi))


def skewint(lo, hi, small=12):
    """Integers in [lo,hi] with small values favoured."""
    return st.one_of(st.integers(lo, min(hi, lo + small)),
                     st.integers(lo, min(hi, lo + 10 * small)),
                     st.integers(lo, hi))


def unit():
    """Units of a quantity: mostly 1, sometimes extremely small or large."""
    return st.sampled_from([1.] * 6 + [2. ** -70, 2. ** -40, 2. ** 35, 2. ** 60])
