"""B01: values of the test functions."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from engine import Facet, arr, close, fail, need, sut


def family(fam, n):
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain

    with sut(f"creating the {fam} basis of order {n}"):
        return FE2DSetupMain(cell_type="quadrilateral", fe_order=n, fe_type=fam, quad_order=3, quad_type="gauss-legendre").assign_basis_function()


# thousandths, special places, and numbers with all digits
coord = st.one_of(
    gen.frac(-1, 1),
    st.sampled_from([-1.0, 1.0, 0.0, 0.5, -0.999, 0.9999, -1 + 1e-9, 1 - 1e-12, 1e-13, -1e-7]),
    st.integers(-(2**50), 2**50).map(lambda k: k / 2.0**50),
)


@st.composite
def points(draw, lo=1, hi=12, many=True):
    """Free points; also the second coordinates a permutation of the first, tensor grids, and many points."""
    how = draw(st.sampled_from(["free", "free", "free", "free", "perm", "diag", "grid", "many" if many else "free"]))
    if how in ("perm", "diag"):
        t = draw(st.lists(coord, min_size=lo, max_size=hi, unique=True))
        return [[a, b] for a, b in zip(t, draw(st.permutations(t)) if how == "perm" else t)]
    if how == "grid":
        a = draw(st.lists(coord, min_size=1, max_size=4))
        b = draw(st.lists(coord, min_size=max(1, lo), max_size=3))
        g = [[x, y] for x in a for y in b]
        return g if draw(st.booleans()) else draw(st.permutations(g))
    if how == "many":
        r = np.random.RandomState(draw(st.integers(0, 10**6)))
        return r.uniform(-1, 1, size=(draw(st.integers(20, 400)), 2)).tolist()
    n = draw(st.integers(lo, hi))
    return [[draw(coord), draw(coord)] for _ in range(n)]


def accuracy(n):
    """Relative to the size of the functions; the library's errors are below 1e-14 + 2e-15 n."""
    return 1e-12 + 1e-13 * n


orders = st.one_of(st.integers(2, 12), st.integers(2, 12), st.integers(13, 40), st.integers(41, 64))


@st.composite
def s_values(draw):
    return {"fam": draw(st.sampled_from(ref.FAMILIES)), "n": draw(orders), "pts": draw(points())}


@st.composite
def s_high(draw):
    """Orders far above those in use."""
    return {"fam": draw(st.sampled_from(ref.FAMILIES)), "n": draw(st.one_of(st.integers(65, 110), st.integers(65, 160))), "pts": draw(points(1, 6, many=False))}


def pts_of(case):
    P = np.array(case["pts"], dtype=np.float64)
    return P[:, 0].copy(), P[:, 1].copy()


def label(case):
    n = case["n"]
    return {"fam": case["fam"], "order": "2-6" if n <= 6 else "7-12" if n <= 12 else "13-40" if n <= 40 else ">40", "nontrivial": n > 2 or len(case.get("pts", [])) > 1}


def c_values(case, ctx):
    xi, eta = pts_of(case)
    n = case["n"]
    b = family(case["fam"], n)
    x0, e0 = xi.copy(), eta.copy()
    with sut("value()"):
        v = b.value(xi, eta)
    v = arr(v, (n * n, len(xi)), "basis values")
    r, sc = ref.basis2d(case["fam"], n, x0, e0, "value")
    close(v, r, accuracy(n), f"{case['fam']} order {n}: basis values", sc)
    need(np.array_equal(xi, x0) and np.array_equal(eta, e0), "value() changed the points it was given")
    return label(case)


@st.composite
def s_boundary(draw):
    n = draw(orders)
    t = draw(st.lists(coord, min_size=1, max_size=6))
    return {"fam": draw(st.sampled_from(ref.BUBBLES)), "n": n, "pts": [[x, s] for x in t for s in (-1.0, 1.0)] + [[s, x] for x in t for s in (-1.0, 1.0)]}


def c_boundary(case, ctx):
    xi, eta = pts_of(case)
    with sut("value()"):
        v = family(case["fam"], case["n"]).value(xi, eta)
    v = arr(v, (case["n"] ** 2, len(xi)), "basis values")
    need(np.max(np.abs(v)) <= 1e-10, lambda: f"{case['fam']} order {case['n']}: a test function is {np.max(np.abs(v)):.3g} on the cell boundary, expected 0")
    return label(case)


@st.composite
def s_batch(draw):
    c = draw(s_values())
    c["n"] = draw(st.integers(2, 16))
    c["pts"] = draw(points(2, 10))
    k = len(c["pts"])
    c["perm"] = draw(st.permutations(range(k)))
    c["cut"] = draw(st.integers(1, k - 1))
    c["which"] = draw(st.sampled_from(sorted(ref.DER)))
    return c


def c_batch(case, ctx):
    """Evaluation is pointwise: order and grouping of the points do not matter, nor does earlier use."""
    xi, eta = pts_of(case)
    n = case["n"]
    b = family(case["fam"], n)
    f = getattr(b, case["which"])
    k = len(xi)
    with sut(case["which"]):
        full = arr(f(xi, eta), (n * n, k), case["which"])
        p = np.array(case["perm"])
        perm = arr(f(xi[p], eta[p]), (n * n, k), case["which"])
        c = case["cut"]
        a1 = arr(f(xi[:c], eta[:c]), (n * n, c), case["which"])
        a2 = arr(f(xi[c:], eta[c:]), (n * n, k - c), case["which"])
        again = arr(f(xi, eta), (n * n, k), case["which"])
        other = arr(getattr(family(case["fam"], n), case["which"])(xi, eta), (n * n, k), case["which"])
    _, sc = ref.basis2d(case["fam"], n, xi, eta, case["which"])
    close(perm, full[:, p], 1e-12, "values at permuted points", sc)
    close(np.hstack([a1, a2]), full, 1e-12, "values at the points in two groups", sc)
    close(again, full, 1e-12, "second evaluation", sc)
    close(other, full, 1e-12, "evaluation by a second object", sc)
    return label(case)


@st.composite
def s_many(draw):
    """Thousands of points in no particular order."""
    return {"fam": draw(st.sampled_from(ref.FAMILIES)), "n": draw(st.integers(2, 5)), "seed": draw(st.integers(0, 10**6)), "k": draw(st.integers(500, 20000)), "which": draw(st.permutations(sorted(ref.DER)))[:2]}


def c_many(case, ctx):
    r = np.random.RandomState(case["seed"])
    xi, eta = r.uniform(-1, 1, size=(2, case["k"]))
    n = case["n"]
    b = family(case["fam"], n)
    for w in case["which"]:
        with sut(w):
            v = getattr(b, w)(xi, eta)
        v = arr(v, (n * n, case["k"]), w)
        want, sc = ref.basis2d(case["fam"], n, xi, eta, w)
        close(v, want, accuracy(n), f"{case['fam']} order {n}: {w} at {case['k']} points", sc)
    return label(case)


@st.composite
def s_indep(draw):
    return {"fam": draw(st.sampled_from(ref.FAMILIES)), "n": draw(st.integers(2, 9))}


def c_indep(case, ctx):
    """The test functions are linearly independent (a dependent family loses equations)."""
    n = case["n"]
    xi, eta, w = ref.gauss2d(n + 3)
    with sut("value()"):
        v = arr(family(case["fam"], n).value(xi, eta), (n * n, len(xi)), "basis values")
    s = np.sqrt((v * v * w).sum(1))
    need(np.all(s > 1e-6), "a test function vanishes identically")
    V = v * np.sqrt(w) / s[:, None]
    sv = np.linalg.svd(V, compute_uv=False)
    need(sv[-1] > 1e-5, lambda: f"{case['fam']} order {n}: test functions linearly dependent (smallest singular value {sv[-1]:.3g})")
    r, _ = ref.basis2d(case["fam"], n, xi, eta, "value")
    # they span exactly the expected space
    q = np.linalg.qr((r * np.sqrt(w)).T)[0]
    rest = (v * np.sqrt(w)).T - q @ (q.T @ (v * np.sqrt(w)).T)
    need(np.max(np.abs(rest)) < 1e-9 * max(1, np.max(np.abs(v))), "a test function lies outside the family's space")
    return label(case)


FACETS = [
    Facet("high-order", s_high, c_values, 24, thorough=240, rule="family x order 65..160, values against the definition"),
    Facet("values", s_values, c_values, 2400, rule="family x order 2..64 x up to 12 reference points (boundary and corners included); non-trivial: order > 2 or several points"),
    Facet("boundary", s_boundary, c_boundary, 800, rule="families which vanish on the boundary, points on all four edges; non-trivial: always with order > 2"),
    Facet("pointwise", s_batch, c_batch, 1200, rule="permuted, split and repeated evaluation of any of the six quantities"),
    Facet("many-points", s_many, c_many, 64, rule="two of the six quantities at 500-20000 random points, order 2..5"),
    Facet("independence", s_indep, c_indep, 48, thorough=120, rule="family x order 2..9 (nearly enumerated); Gram matrix and span"),
]
