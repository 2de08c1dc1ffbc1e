"""P02: residuals of the inverse problems and their dependence on the unknown coefficient."""
import numpy as np
from hypothesis import strategies as st

import gen
from engine import Facet, arr, close, need, sut
from props import p01
from props.p01 import NAMES, data, loss, residuals, rounded, tens

PROBLEMS = ["poisson_inverse", "cd2d_inverse", "cd2d_inverse_domain"]


@st.composite
def s_tensors(draw, max_c=4, max_t=5, max_q=5):
    c = draw(p01.s_tensors(PROBLEMS, max_c, max_t, max_q))
    c["plain"] = False
    c["var"] = draw(st.booleans())
    c["decoy"] = draw(st.booleans())
    return c


@st.composite
def s_large(draw):
    return p01.large(draw, draw(s_tensors()))


def bil(case):
    p = {k: case["p"][k] for k in ("b_x", "b_y", "c")}
    if case["decoy"]:  # a stale value of the unknown among the known parameters must not be used
        p["eps"] = 17.5
    return p


def eps_of(case):
    nc, nt, nq = case["n"]
    if case["pb"] == "cd2d_inverse_domain":
        r = np.random.RandomState(case["seed"] + 1)
        return (r.randn(nc, nq) * 2).astype(case["dtype"]).astype(float)
    return case["p"]["eps"]


def call(case, d, e, raw=False):
    import tensorflow as tf

    f = loss(case["pb"])
    a = [tens(d[k], case) for k in ("V", "GX", "GY", "u", "ux", "uy", "F")]
    B = {k: tens(v, case) for k, v in bil(case).items()}
    E = e if tf.is_tensor(e) or isinstance(e, tf.Variable) else tens(e, case)
    with sut(f"the {case['pb']} loss"):
        r = f(*a, B, [E] if case["pb"] == "cd2d_inverse_domain" else {"eps": E})
    return r if raw else arr(r, (case["n"][0],), f"{case['pb']} loss per cell")


def lab(case):
    return {"pb": case["pb"], "dtype": case["dtype"], "nontrivial": case["zero"] not in ("V", "u") and case["n"][1] * case["n"][2] > 1}


def c_residual(case, ctx):
    import tensorflow as tf

    d = data(case)
    e = eps_of(case)
    E = tf.Variable(e, dtype=getattr(tf, case["dtype"])) if case["var"] else e
    got = call(case, d, E)
    er = e if np.ndim(e) else rounded({"e": e}, case)["e"]
    R, S = residuals(case["pb"], **d, p=rounded(bil(case), case), eps=er)
    close(got, (R**2).mean(1), p01.tol(case, S, case["n"][2]), f"{case['pb']}: mean squared residual per cell", 4 * (S**2).mean(1) + 1e-300)
    if case["var"]:  # a new value of the unknown is used at once
        e2 = (np.asarray(e) * 2 + 0.75).astype(case["dtype"]).astype(float)
        E.assign(e2)
        R, S = residuals(case["pb"], **d, p=rounded(bil(case), case), eps=e2 if np.ndim(e2) else float(e2))
        close(call(case, d, E), (R**2).mean(1), p01.tol(case, S, case["n"][2]), f"{case['pb']}: loss after the unknown was changed", 4 * (S**2).mean(1) + 1e-300)
    return lab(case)


def c_grad(case, ctx):
    """Derivative of the loss with respect to the unknown coefficient."""
    import tensorflow as tf

    case = dict(case, dtype="float64")
    d = data(case)
    e = eps_of(case)
    E = tf.Variable(e, dtype=tf.float64)
    with sut("differentiating the loss"):
        with tf.GradientTape() as tape:
            r = tf.reduce_sum(call(case, d, E, raw=True))
        g = tape.gradient(r, E)
    need(g is not None, "the loss does not depend on the unknown coefficient")
    R, S = residuals(case["pb"], **d, p=bil(case), eps=e)
    nt = case["n"][1]
    D = d["GX"] * d["ux"][:, None, :] + d["GY"] * d["uy"][:, None, :]  # (nc, nt, nq)
    A = np.abs(d["GX"] * d["ux"][:, None, :]) + np.abs(d["GY"] * d["uy"][:, None, :])
    if np.ndim(e):
        want = 2.0 / nt * np.einsum("ci,ciq->cq", R, D)
        sc = 2.0 / nt * np.einsum("ci,ciq->cq", S, A)
    else:
        want = 2.0 / nt * np.sum(R * D.sum(-1))
        sc = 2.0 / nt * np.sum(S * A.sum(-1))
    close(arr(g, np.shape(want), "derivative"), want, 1e-12, f"{case['pb']}: derivative with respect to the unknown", sc + 1e-300)
    return lab(case)


@st.composite
def s_same(draw):
    c = draw(s_tensors())
    c["dtype"] = "float64"
    return c


def c_same(case, ctx):
    """With the coefficient at its true constant value the inverse loss is that of the forward problem."""
    d = data(case)
    e = case["p"]["eps"]
    nc, nt, nq = case["n"]
    E = np.full((nc, nq), e) if case["pb"] == "cd2d_inverse_domain" else e
    got = call(case, d, E)
    fwd = "poisson" if case["pb"].startswith("poisson") else "cd2d"
    c = dict(case, pb=fwd, plain=False)
    want = p01.call(c, d, p01.params(c))
    _, S = residuals(fwd, **d, p=case["p"])
    close(got, want, 1e-12, f"{case['pb']} against {fwd}", 4 * (S**2).mean(1) + 1e-300)
    return lab(case)


FACETS = [
    Facet("residual", s_tensors, c_residual, 800, rule="three inverse problems; unknown as constant, variable (changed between calls) or field per point; stale value among the known parameters; per-cell loss against explicit sums; non-trivial: residual not trivially zero"),
    Facet("large", s_large, c_residual, 96, rule="as residual, with 400-6000 cells, test functions or points"),
    Facet("derivative", s_tensors, c_grad, 480, rule="derivative of the loss with respect to the unknown constant or field"),
    Facet("forward-limit", s_same, c_same, 320, rule="inverse loss at a constant coefficient against the forward loss"),
]
