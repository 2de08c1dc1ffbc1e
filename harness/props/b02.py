"""B02: derivatives of the test functions."""
import numpy as np
from hypothesis import strategies as st

import ref
from engine import Facet, arr, close, need, sut
from props.b01 import accuracy, family, label, orders, points, pts_of, s_high

WHICH = ["gradx", "grady", "gradxx", "gradxy", "gradyy"]


@st.composite
def s_ref(draw):
    return {"fam": draw(st.sampled_from(ref.FAMILIES)), "n": draw(orders), "pts": draw(points())}


def c_ref(case, ctx):
    xi, eta = pts_of(case)
    n = case["n"]
    b = family(case["fam"], n)
    for w in WHICH:
        with sut(w):
            g = getattr(b, w)(xi, eta)
        g = arr(g, (n * n, len(xi)), w)
        r, sc = ref.basis2d(case["fam"], n, xi, eta, w)
        close(g, r, accuracy(n), f"{case['fam']} order {n}: {w}", sc)
    return label(case)


@st.composite
def s_own(draw):
    return {"fam": draw(st.sampled_from(ref.FAMILIES)), "n": draw(st.integers(2, 14)), "pts": draw(points(1, 6, many=False))}


def cheb_interp(m):
    return np.cos((2 * np.arange(m) + 1) * np.pi / (2 * m))


def c_own(case, ctx):
    """Differential: the derivative methods against the derivatives of what value() returns.

    value() is a polynomial of degree <= n+1 in each coordinate, so its Chebyshev interpolant along a
    coordinate line is the function itself, and is differentiated exactly.
    """
    from numpy.polynomial import chebyshev as C

    n = case["n"]
    m = n + 4
    t = cheb_interp(m)
    V = C.chebvander(t, m - 1)
    b = family(case["fam"], n)
    xi, eta = pts_of(case)
    for x, e in zip(xi, eta):
        X, E = np.meshgrid(t, t, indexing="ij")
        with sut("value()"):
            v = arr(b.value(X.ravel(), E.ravel()), (n * n, m * m), "values").reshape(n * n, m, m)
            g = {w: arr(getattr(b, w)(np.array([x]), np.array([e])), (n * n, 1), w)[:, 0] for w in WHICH}
        iV = np.linalg.inv(V)
        co = np.einsum("ai,bj,kij->kab", iV, iV, v)
        for w in WHICH:
            p, q = ref.DER[w]
            dx = np.array([C.chebval(x, C.chebder(np.eye(m)[i], p)) if p else C.chebval(x, np.eye(m)[i]) for i in range(m)])
            dy = np.array([C.chebval(e, C.chebder(np.eye(m)[i], q)) if q else C.chebval(e, np.eye(m)[i]) for i in range(m)])
            d = np.einsum("kab,a,b->k", co, dx, dy)
            sc = float(m) ** (2 * (p + q)) * max(1.0, np.max(np.abs(v)))
            close(g[w], d, 1e-11, f"{case['fam']} order {n}: {w} against the derivative of value()", sc)
    return label(case)


FACETS = [
    Facet("high-order", s_high, c_ref, 16, thorough=160, rule="family x order 65..160, all five derivatives against the differentiated definition"),
    Facet("definition", s_ref, c_ref, 1200, rule="family x order 2..64 x up to 12 reference points, all five derivatives against the differentiated definition; non-trivial: order > 2 or several points"),
    Facet("derivative-of-value", s_own, c_own, 320, rule="family x order 2..14: derivatives against the exact derivative of the interpolated value()"),
]
