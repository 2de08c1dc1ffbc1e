"""R01: reported errors are the norms of the difference."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
from engine import Facet, arr, close, need, sut

NAMES = ["compute_l2_error", "compute_linf_error", "compute_l2_error_relative", "compute_linf_error_relative", "compute_l1_error", "compute_l1_error_relative"]
SHAPES = ["flat", "col", "row", "grid", "t", "strided"]


def reference(u, v):
    """In the order of compute_errors_combined."""
    d = [abs(a - b) for a, b in zip(u, v)]
    n = len(u)
    if not all(map(math.isfinite, d)):
        return [math.nan if any(map(math.isnan, d)) else math.inf] * 6
    l2 = math.sqrt(math.fsum(x * x for x in d) / n)
    li = max(d)
    l1 = math.fsum(d) / n
    n2 = math.sqrt(math.fsum(x * x for x in u) / n)
    return [l2, li, l2 / n2, li / max(map(abs, u)), l1, l1 / (math.fsum(map(abs, u)) / n)]


@st.composite
def s_err(draw):
    if draw(st.booleans()):
        n = draw(st.integers(1, 8))
        u = [draw(gen.frac(-9, 9)) for _ in range(n)]
        v = [draw(gen.frac(-9, 9)) for _ in range(n)]
        c = {"u": u, "v": v}
    else:
        n = draw(st.integers(1, 40)) * draw(st.sampled_from([1, 1, 4, 4, 30, 30, 1000]))
        c = {"n": n, "seed": draw(st.integers(0, 10**6)), "noise": draw(st.sampled_from([1.0, 1e-3, 0.0, 10.0]))}
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-6, 1e5]))
    c["su"], c["sv"] = draw(st.sampled_from(SHAPES)), draw(st.sampled_from(SHAPES))
    c["dtype"] = draw(st.sampled_from(["float64", "float64", "float32"]))
    if c["dtype"] == "float64" and draw(st.integers(0, 7)) == 7:
        c["scale"] = draw(st.sampled_from([1e-40, 1e-20, 1e20, 1e60]))
    if draw(st.integers(0, 7)) == 7:  # the exact values in double precision, the predictions in single, or integers
        c["scale"], c["dtype"] = 1.0, draw(st.sampled_from(["mixed", "mixed", "int64", "int32"]))
    if draw(st.integers(0, 9)) == 9:  # predictions of a diverged training
        c["odd"] = [draw(st.sampled_from(["nan", "inf", "-inf"])), draw(st.integers(0, 100))]
    return c


def shaped(x, how):
    n = len(x)
    k = max(q for q in range(1, int(math.sqrt(n)) + 1) if n % q == 0)
    if how == "flat":
        return x.copy()
    if how == "col":
        return x.reshape(n, 1).copy()
    if how == "row":
        return x.reshape(1, n).copy()
    if how == "grid":
        return x.reshape(k, n // k).copy()
    if how == "t":  # the same logical order, column-major memory
        return np.asfortranarray(x.reshape(k, n // k))
    y = np.zeros(2 * n, dtype=x.dtype)
    y[::2] = x
    return y[::2]


def c_err(case, ctx):
    from fastvpinns.utils import compute_utils as cu

    if "u" in case:
        u, v = np.array(case["u"]), np.array(case["v"])
    else:
        r = np.random.RandomState(case["seed"])
        u = r.randn(case["n"])
        v = u + case["noise"] * r.randn(case["n"])
    du, dv = ("float64", "float32") if case["dtype"] == "mixed" else (case["dtype"],) * 2
    if du.startswith("int"):
        u, v = 10 * u, 10 * v
    u, v = (u * case["scale"]).astype(du), (v * case["scale"]).astype(dv)
    if not np.any(u):
        u = u + u.dtype.type(case["scale"])
    if "odd" in case and v.dtype.kind == "f":
        v[case["odd"][1] % len(v)] = float(case["odd"][0])
    U, V = shaped(u, case["su"]), shaped(v, case["sv"])
    U0, V0 = U.copy(), V.copy()
    want = reference(u.astype(float).tolist(), v.astype(float).tolist())
    eps = 1e-5 if case["dtype"] == "float32" else 1e-12
    with sut("compute_errors_combined"):
        got = cu.compute_errors_combined(U, V)
    need(len(got) == 6, lambda: f"{len(got)} errors instead of 6")
    for k, name in enumerate(NAMES):
        with sut(name):
            e = getattr(cu, name)(U, V)
        for w, g in ((name, e), (f"compute_errors_combined[{k}]", got[k])):
            g = np.asarray(g, dtype=np.float64)
            need(g.size == 1, lambda: f"{w}: {g.size} values")
            g = float(g.reshape(-1)[0])
            if np.isfinite(want[k]):
                close(g, want[k], eps, w, want[k] + 1e-300)
            else:
                need(repr(g) == repr(float(want[k])), lambda: f"{w}: {g} for predictions which contain {case['odd'][0]}, expected {want[k]}")
    need(np.array_equal(U, U0) and np.array_equal(V, V0, equal_nan=True), "an argument was changed")
    return {"shapes": case["su"] + "/" + case["sv"], "dtype": case["dtype"], "nontrivial": len(u) > 1 and bool(np.any(u != v))}


FACETS = [Facet("norms", s_err, c_err, 4000, rule="1-40000 values, six shapes/layouts of either argument, both precisions, scales: all six errors alone and combined against exactly summed norms; non-trivial: several values, some different")]
