"""P01: residuals of the forward problems (Poisson, convection-diffusion-reaction, Helmholtz)."""
import numpy as np
from hypothesis import strategies as st

import gen
from engine import Facet, arr, close, fail, need, sut

PROBLEMS = ["poisson", "cd2d", "helmholtz"]


def loss(name):
    import importlib

    mod, fn = {
        "poisson": ("poisson2d", "pde_loss_poisson"),
        "cd2d": ("cd2d", "pde_loss_cd2d"),
        "helmholtz": ("helmholtz2d", "pde_loss_helmholtz"),
        "poisson_inverse": ("poisson2d_inverse", "pde_loss_poisson_inverse"),
        "cd2d_inverse": ("cd2d_inverse", "pde_loss_cd2d"),
        "cd2d_inverse_domain": ("cd2d_inverse_domain", "pde_loss_cd2d_inverse_domain"),
    }[name]
    with sut(f"importing {mod}"):
        return getattr(importlib.import_module("fastvpinns.physics." + mod), fn)


def residuals(name, V, GX, GY, u, ux, uy, F, p, eps=None):
    """Residual of test function i on cell c by explicit summation over the quadrature points: (nc, nt)."""
    nc, nt, nq = V.shape
    e = p.get("eps") if eps is None else eps
    R = np.zeros((nc, nt))
    S = np.zeros((nc, nt))  # sum of magnitudes, for the tolerance
    for c in range(nc):
        ee = e[c] if np.ndim(e) == 2 else e  # every array below is (nt, nq)
        t = [ee * GX[c] * ux[c], ee * GY[c] * uy[c]]
        if name == "helmholtz":
            t = [-x for x in t] + [p["k"] ** 2 * V[c] * u[c]]
        if name.startswith("cd2d"):
            t += [p["b_x"] * V[c] * ux[c], p["b_y"] * V[c] * uy[c], p["c"] * V[c] * u[c]]
        R[c] = sum(x.sum(1) for x in t) - F[:, c]
        S[c] = sum(np.abs(x).sum(1) for x in t) + np.abs(F[:, c])
    return R, S


@st.composite
def s_tensors(draw, problems=PROBLEMS, max_c=4, max_t=5, max_q=5):
    nc, nt, nq = (draw(gen.few(st.integers(1, k), st.integers(k + 1, big), 12)) for k, big in ((max_c, 300), (max_t, 150), (max_q, 400)))
    if draw(st.integers(0, 3)) == 0:
        nc = nt
    nq = max(1, min(nq, 10**6 // (nc * nt)))
    return {
        "pb": draw(st.sampled_from(problems)),
        "n": [nc, nt, nq],
        "seed": draw(st.integers(0, 10**6)),
        "zero": draw(st.sampled_from([None, None, None, "V", "G", "u", "F"])),
        "scale": [draw(st.sampled_from([1.0, 1.0, 1e-3, 100.0])) for _ in range(3)],
        "p": {k: draw(gen.coef()) for k in ("eps", "b_x", "b_y", "c", "k")},
        "dtype": draw(st.sampled_from(["float64", "float64", "float32"])),
        "plain": draw(st.sampled_from([False, False, False, True])),
    }


def data(case):
    r = np.random.RandomState(case["seed"])
    nc, nt, nq = case["n"]
    a, b, c = case["scale"]
    d = dict(
        V=r.randn(nc, nt, nq) * a,
        GX=r.randn(nc, nt, nq) * a,
        GY=r.randn(nc, nt, nq) * a,
        u=r.randn(nc, nq) * b,
        ux=r.randn(nc, nq) * b,
        uy=r.randn(nc, nq) * b,
        F=r.randn(nt, nc) * c,
    )
    for k in {"V": ["V"], "G": ["GX", "GY"], "u": ["u", "ux", "uy"], "F": ["F"], None: []}[case["zero"]]:
        d[k] = d[k] * 0
    return {k: v.astype(case["dtype"]).astype(np.float64) for k, v in d.items()}


def tens(x, case):
    import tensorflow as tf

    return tf.constant(x, dtype=getattr(tf, case["dtype"]))


NAMES = dict(V="test_shape_val_mat", GX="test_grad_x_mat", GY="test_grad_y_mat", u="pred_nn", ux="pred_grad_x_nn", uy="pred_grad_y_nn", F="forcing_function")


def call(case, d, p):
    f = loss(case["pb"])
    kw = {NAMES[k]: tens(v, case) for k, v in d.items()}
    # the models pass the arguments by keyword, with all parameters as tensors
    with sut(f"the {case['pb']} loss"):
        r = f(bilinear_params={k: (v if case["plain"] else tens(v, case)) for k, v in p.items()}, **kw)
    return arr(r, (case["n"][0],), f"{case['pb']} loss per cell")


def tol(case, S, n):
    u = 1e-13 if case["dtype"] == "float64" else 3e-7
    return u * (n + 10)


def rounded(p, case):
    return {k: float(np.dtype(case["dtype"]).type(v)) for k, v in p.items()}


def params(case):
    need_ = {"poisson": ["eps"], "cd2d": ["eps", "b_x", "b_y", "c"], "helmholtz": ["eps", "k"]}[case["pb"]]
    return {k: case["p"][k] for k in need_}


def lab(case):
    return {"pb": case["pb"], "dtype": case["dtype"], "square": case["n"][0] == case["n"][1], "nontrivial": case["zero"] not in ("V", "u") and case["n"][1] * case["n"][2] > 1}


def c_residual(case, ctx):
    d = data(case)
    p = params(case)
    got = call(case, d, p)
    R, S = residuals(case["pb"], **d, p=rounded(p, case))
    close(got, (R**2).mean(1), tol(case, S, case["n"][2]), f"{case['pb']}: mean squared residual per cell", 4 * (S**2).mean(1) + 1e-300)
    need(np.all(got >= 0), "a negative loss")
    return lab(case)


@st.composite
def s_large(draw, problems=PROBLEMS):
    """One of the three sizes is large."""
    return large(draw, draw(s_tensors(problems, max_c=3, max_t=3, max_q=3)))


def large(draw, c):
    k = draw(st.integers(0, 2))
    c["n"] = [min(i, 3) for i in c["n"]]
    c["n"][k] = draw(st.integers(400, (6000, 1200, 6000)[k]))
    c["zero"] = None
    return c


@st.composite
def s_hist(draw):
    return {"calls": draw(st.lists(s_tensors(max_c=3, max_t=3, max_q=3), min_size=2, max_size=4))}


def c_hist(case, ctx):
    """Several problems, shapes, precisions and parameters one after the other."""
    for c in case["calls"] + case["calls"][:1]:
        c_residual(c, ctx)
    return {"n": len(case["calls"])}


@st.composite
def s_meta(draw):
    c = draw(s_tensors())
    c["dtype"] = "float64"
    nc, nt, nq = c["n"]
    c["pc"], c["pt"], c["pq"] = (draw(st.permutations(range(k))) for k in (nc, nt, nq))
    c["t"] = draw(gen.frac(-3, 3))
    return c


def c_meta(case, ctx):
    """Renumbering cells, test functions and points; scaling of the data; a cell alone."""
    d, p = data(case), params(case)
    base = call(case, d, p)
    R, S = residuals(case["pb"], **d, p=rounded(p, case))
    sc = 4 * (S**2).mean(1) + 1e-300
    T = 1e-12
    pc, pt, pq = (np.array(case[k]) for k in ("pc", "pt", "pq"))
    e = dict(d)
    for k in ("V", "GX", "GY"):
        e[k] = d[k][pc][:, pt][:, :, pq]
    for k in ("u", "ux", "uy"):
        e[k] = d[k][pc][:, pq]
    e["F"] = d["F"][pt][:, pc]
    close(call(case, e, p), base[pc], T, "renumbered cells, test functions and points", sc[pc])
    t = case["t"]
    e = dict(d)
    for k in ("u", "ux", "uy", "F"):
        e[k] = t * d[k]
    close(call(case, e, p), t * t * base, T, "scaled solution and forcing", sc * max(t * t, 1e-6))
    c = int(pc[0])
    one = {k: (v[:, c : c + 1] if k == "F" else v[c : c + 1]) for k, v in d.items()}
    close(call(dict(case, n=[1] + case["n"][1:]), one, p), base[c : c + 1], T, "one cell alone", sc[c])
    # the forcing which makes the residual vanish
    e = dict(d)
    e["F"] = (R + d["F"].T).T
    close(call(case, e, p), 0 * base, 1e-24, "the residual vanishes for the right forcing", sc * 4)
    return lab(case)


@st.composite
def s_grad(draw):
    c = draw(s_tensors(max_c=3, max_t=3, max_q=3))
    c["dtype"] = "float64"
    c["plain"] = False
    return c


def c_grad(case, ctx):
    """Training needs the derivative of the loss with respect to the network's values: compare with the exact one."""
    import tensorflow as tf

    d, p = data(case), params(case)
    f = loss(case["pb"])
    kw = {NAMES[k]: tens(v, case) for k, v in d.items()}
    us = [kw[NAMES[k]] for k in ("u", "ux", "uy")]
    with sut("differentiating the loss"):
        with tf.GradientTape() as tape:
            tape.watch(us)
            r = tf.reduce_sum(f(bilinear_params={k: tens(v, case) for k, v in p.items()}, **kw))
        g = tape.gradient(r, us, unconnected_gradients=tf.UnconnectedGradients.ZERO)
    R, S = residuals(case["pb"], **d, p=p)
    nt = case["n"][1]
    s = -1.0 if case["pb"] == "helmholtz" else 1.0
    z = np.zeros_like(d["V"])
    du = {"poisson": z, "cd2d": p.get("c", 0) * d["V"], "helmholtz": p.get("k", 0) ** 2 * d["V"]}[case["pb"]]
    dx = s * p["eps"] * d["GX"] + (p["b_x"] * d["V"] if case["pb"] == "cd2d" else 0)
    dy = s * p["eps"] * d["GY"] + (p["b_y"] * d["V"] if case["pb"] == "cd2d" else 0)
    for got, D, nm in zip(g, (du, dx, dy), ("value", "x derivative", "y derivative")):
        want = 2.0 / nt * np.einsum("ci,ciq->cq", R, D)
        sc = 2.0 / nt * np.einsum("ci,ciq->cq", S, np.abs(D)) + 1e-300
        close(arr(got, want.shape, nm), want, 1e-12, f"derivative of the loss with respect to the {nm}", sc)
    return lab(case)


FACETS = [
    Facet("residual", s_tensors, c_residual, 800, rule="problem x 1-4 cells x 1-5 test functions x 1-5 points, float32/float64, parameters zero, unit, ordinary (also as plain numbers), magnitudes 1e-3..100: per-cell loss against explicit sums; non-trivial: residual not trivially zero"),
    Facet("large", s_large, c_residual, 96, rule="as residual, with 400-6000 cells, test functions or points"),
    Facet("history", s_hist, c_hist, 160, rule="2-4 problems of different shape, precision and parameters in one process"),
    Facet("metamorphic", s_meta, c_meta, 240, rule="renumbering, scaling, one cell alone, exact forcing"),
    Facet("derivative", s_grad, c_grad, 320, rule="derivative of the loss with respect to solution values and gradients"),
]
