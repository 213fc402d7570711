"""Shared Hypothesis strategies.  Every strategy yields plain JSON values."""

from __future__ import annotations

from hypothesis import strategies as st

GRID = 9973  # prime: grid points are rarely commensurate with sample periods


def frac():
    """A fraction strictly between 0 and 1 on a fine prime grid."""
    return st.integers(1, GRID - 1).map(lambda k: k / GRID)


def uniform(lo: float, hi: float):
    return st.integers(0, GRID).map(lambda k: lo + (hi - lo) * k / GRID)


def sizes(dim, lo=1.2, hi=9.0):
    return st.lists(uniform(lo, hi), min_size=dim, max_size=dim)


def coeff():
    return st.one_of(uniform(0.0, 1.0), st.sampled_from([0.0, 1.0, 0.5]))


@st.composite
def point(draw, size, edge=0.02, walls=False):
    out = []
    for length in size:
        if walls and draw(st.integers(0, 19)) == 0:
            out.append(draw(st.sampled_from([0.0, length])))
        else:
            out.append(length * (edge + (1 - 2 * edge) * draw(frac())))
    return out


@st.composite
def rooms(draw, dims=(2, 3), surfaces=("beta", "t60", "none"), fs=None, max_size=9.0):
    dim = draw(st.sampled_from(list(dims)))
    size = draw(sizes(dim, hi=max_size))
    kind = draw(st.sampled_from(list(surfaces)))
    room = dict(size=size, fs=draw(fs if fs is not None else st.sampled_from([4000.0, 8000.0, 11025.0, 16000.0, 22050.0, 44100.0, 48000.0, 7919.0, 12345.678])),
                c=draw(st.one_of(st.just(343.0), uniform(300.0, 360.0))), beta=None, t60=None)
    if kind == "beta":
        room["beta"] = draw(st.lists(coeff(), min_size=2 * dim, max_size=2 * dim))
    elif kind == "t60":
        room["t60"] = draw(uniform(0.05, 1.5))
    return room


@st.composite
def entities(draw, size, max_n=3, walls=False, min_n=1):
    n = draw(st.integers(min_n, max_n))
    return [draw(point(size, walls=walls)) for _ in range(n)]


def azel_vec(az, el, dim):
    import math

    if dim == 2:
        return [math.cos(az), math.sin(az)]
    return [math.cos(el) * math.cos(az), math.cos(el) * math.sin(az), math.sin(el)]


def limits(dim, max_total=400):
    """Reflection limit: an L1 order, or a box of per-axis counts."""
    order = st.sampled_from([0] + list(range(1, 9 if dim == 2 else 6)) * 2).map(lambda k: dict(max_order=k, nb_img=None))
    # explicit counts make the order irrelevant, whatever it is
    box = st.builds(lambda v, k: dict(max_order=k, nb_img=v), st.lists(st.integers(0, 6 if dim == 2 else 3), min_size=dim, max_size=dim),
                    st.sampled_from([0, 0, 1, 2, 9]))
    return st.one_of(order, order, box)
