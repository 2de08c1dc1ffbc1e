"""E01: the whole chain (mesh, space, data handler, loss, model) computes the weak form of the equation."""
import math
import os

import numpy as np
from hypothesis import strategies as st

import build
import gen
import net
import ref
from engine import Facet, arr, close, need, sut
from props.h01 import Domain, handler
from props.p01 import loss

PROBLEMS = ["poisson", "cd2d", "helmholtz", "poisson_inverse", "cd2d_inverse", "cd2d_inverse_domain"]


@st.composite
def s_params(draw):
    return {
        "eps": draw(st.one_of(st.sampled_from([1.0, 0.1]), gen.frac(-3, 3))),
        "b_x": draw(gen.coef()),
        "b_y": draw(gen.coef()),
        "c": draw(gen.coef()),
        "k": draw(gen.coef()),
    }


def forcing(pb, p, u, eps=None):
    """The right hand side for which u solves the strong form; u has d(x, y, p, q)."""
    e = p["eps"] if eps is None else eps

    def f(x, y):
        lap = u.d(x, y, 2, 0) + u.d(x, y, 0, 2)
        if pb == "helmholtz":
            return p["eps"] * lap + p["k"] ** 2 * u(x, y)
        r = -p["eps"] * lap
        if pb == "cd2d_inverse_domain":
            r = -(e(x, y) * lap + e.d(x, y, 1, 0) * u.d(x, y, 1, 0) + e.d(x, y, 0, 1) * u.d(x, y, 0, 1))
        if pb.startswith("cd2d"):
            r = r + p["b_x"] * u.d(x, y, 1, 0) + p["b_y"] * u.d(x, y, 0, 1) + p["c"] * u(x, y)
        return r

    return f


@st.composite
def s_solve(draw):
    m = draw(gen.mesh(3, 2))
    sp = draw(gen.fespec(m["kind"], 4, 4, ref.BUBBLES))
    pb = draw(st.sampled_from(PROBLEMS))
    k = draw(st.integers(0, 3))
    ke = draw(st.integers(0, 2))
    need_deg = sp["n"] + k + 2 + (ke if pb == "cd2d_inverse_domain" else 0)
    q = 3
    while ref.exact_degree(sp["rule"], q) < need_deg:
        q += 1
    sp["q"] = q + draw(st.integers(0, 2))
    c = {"mesh": m, "sp": sp, "pb": pb, "p": draw(s_params()), "u": draw(gen.poly(k))["terms"], "e": draw(gen.poly(ke))["terms"]}
    c["dtype"] = draw(st.sampled_from(["float64", "float64", "float64", "float32"]))
    return c


def tensors(case, d, u, e=None):
    """Arguments of the loss for the function u at the handler's own points, as the models prepare them."""
    import tensorflow as tf

    T = getattr(tf, case["dtype"])
    X = np.asarray(d.x_pde_list, dtype=np.float64)
    nc, nq = d.shape_val_mat_list.shape[0], d.shape_val_mat_list.shape[-1]
    c = lambda a: tf.reshape(tf.constant(np.asarray(a), dtype=T), [nc, nq])
    x, y = X[:, 0], X[:, 1]
    kw = dict(
        test_shape_val_mat=d.shape_val_mat_list,
        test_grad_x_mat=d.grad_x_mat_list,
        test_grad_y_mat=d.grad_y_mat_list,
        pred_nn=c(u(x, y)),
        pred_grad_x_nn=c(u.d(x, y, 1, 0)),
        pred_grad_y_nn=c(u.d(x, y, 0, 1)),
        forcing_function=d.forcing_function_list,
    )
    with sut("get_bilinear_params_dict_as_tensors"):
        kw["bilinear_params"] = d.get_bilinear_params_dict_as_tensors(lambda: dict(case["p"]))
    if case["pb"] in ("poisson_inverse", "cd2d_inverse"):
        with sut("get_inverse_params"):
            kw["inverse_params_dict"] = d.get_inverse_params(lambda: {"eps": case["p"]["eps"]})
    if case["pb"] == "cd2d_inverse_domain":
        kw["inverse_params_list"] = [c(e(x, y))]
    return kw


def call_loss(case, kw, nc):
    with sut("the loss"):
        return arr(loss(case["pb"])(**kw), (nc,), "per-cell loss")


def magnitude(r, case, u, f, e=None):
    """Sum of the magnitudes of everything which is added up in a cell's residuals."""
    p = case["p"]
    ev = np.abs(p["eps"]) if e is None else np.abs(e(r.x, r.y))
    if case["pb"] == "cd2d_inverse_domain" and e is None:
        ev = np.abs(p["eps"])
    ux, uy, uv, fv = (np.abs(t + 0 * r.x) for t in (u.d(r.x, r.y, 1, 0), u.d(r.x, r.y, 0, 1), u(r.x, r.y), f(r.x, r.y)))
    gs = np.max(r.g_scale)
    vs = np.max(r.phi_scale) * np.max(r.mult)
    s = gs * np.sum(ev * (ux + uy)) + vs * np.sum(fv)
    if case["pb"] == "helmholtz":
        s += vs * p["k"] ** 2 * uv.sum()
    if case["pb"].startswith("cd2d"):
        s += vs * np.sum(abs(p["b_x"]) * ux + abs(p["b_y"]) * uy + abs(p["c"]) * uv)
    # how much rounding of the coordinates moves the functions
    return s + 1e-300


def far_of(r, case):
    return 1 + (1e-2 if case["dtype"] == "float64" else 1) * r.far / r.size


def base(case):
    m = case["mesh"]
    fr = gen.mesh_scale(m)
    u = ref.Poly({"cx": fr[0], "cy": fr[1], "h": fr[2], "terms": case["u"]})
    e = ref.Poly({"cx": fr[0], "cy": fr[1], "h": fr[2], "terms": case["e"]}) if case["pb"] == "cd2d_inverse_domain" else None
    return m, fr, u, e


def c_solve(case, ctx):
    """The exact (polynomial) solution has no residual in any cell; another function has."""
    m, fr, u, e = base(case)
    sp = case["sp"]
    f = forcing(case["pb"], case["p"], u, e)
    C = gen.cell_coords(m)
    s = build.space(m, sp, forcing=f, coords=C)
    d = handler(s, Domain(np.zeros((1, 2))), case["dtype"])
    L = call_loss(case, tensors(case, d, u, e), len(C))
    eps = 1e-10 if case["dtype"] == "float64" else 3e-6
    tot = 0.0
    for i, v in enumerate(C):
        r = build.RefCell(v, sp)
        S = magnitude(r, case, u, f, e)
        need(L[i] >= 0, lambda: f"loss of cell {i} is {L[i]}")
        need(math.sqrt(L[i]) <= eps * far_of(r, case) * S, lambda: f"{case['pb']}: the exact solution has residual {math.sqrt(L[i])} in cell {i}, the terms have magnitude {S}")
        tot += S
    return {"pb": case["pb"], "mesh": m["kind"], "fe": sp["fe"], "rule": sp["rule"], "nontrivial": tot > 1e-250 and any(t[2] for t in case["u"])}


@st.composite
def s_any(draw):
    m = draw(gen.mesh(3, 2))
    return {
        "mesh": m,
        "sp": draw(gen.fespec(m["kind"], 4, 5)),
        "pb": draw(st.sampled_from(PROBLEMS)),
        "p": draw(s_params()),
        "u": draw(gen.poly(4))["terms"],
        "e": draw(gen.poly(2))["terms"],
        "f": draw(gen.funcspec(kinds=("poly", "trig", "const"))),
        "dtype": "float64",
    }


def reference(r, case, u, f, e):
    """Residuals of all test functions of a cell from the definition."""
    p = case["p"]
    ev = p["eps"] if e is None else e(r.x, r.y)
    ux, uy, uv = u.d(r.x, r.y, 1, 0), u.d(r.x, r.y, 0, 1), u(r.x, r.y)
    D = r.gx @ (ev * ux) + r.gy @ (ev * uy)
    F = r.val @ (f(r.x, r.y) + 0 * r.x)
    if case["pb"] == "helmholtz":
        return -D + p["k"] ** 2 * (r.val @ uv) - F
    if case["pb"].startswith("cd2d"):
        D = D + r.val @ (p["b_x"] * ux + p["b_y"] * uy + p["c"] * uv)
    return D - F


def c_any(case, ctx):
    """The loss of any function is the mean square of its weak residuals."""
    m, fr, u, e = base(case)
    sp = case["sp"]
    f = gen.func(case["f"], *fr)
    C = gen.cell_coords(m)
    s = build.space(m, sp, forcing=f, coords=C)
    d = handler(s, Domain(np.zeros((1, 2))), case["dtype"])
    L = call_loss(case, tensors(case, d, u, e), len(C))
    big = 0.0
    for i, v in enumerate(C):
        r = build.RefCell(v, sp)
        R = reference(r, case, u, f, e)
        S = magnitude(r, case, u, f, e)
        close(L[i], np.mean(R**2), 1.0, f"{case['pb']}: loss of cell {i}", 1e-9 * far_of(r, case) * S * (np.abs(R).max() + 1e-9 * S))
        big = max(big, np.abs(R).max())
    return {"pb": case["pb"], "mesh": m["kind"], "fe": sp["fe"], "nontrivial": big > 0}


@st.composite
def s_move(draw):
    c = draw(s_any())
    c["pb"] = draw(st.sampled_from(["poisson", "helmholtz"]))
    c["ang"] = draw(st.sampled_from([90, 180, 270, 30, 77, 211]))
    c["sh"] = [draw(gen.frac(-2, 2)), draw(gen.frac(-2, 2))]
    n = len(c["mesh"]["cells"])
    c["perm"] = draw(st.permutations(range(n)))
    c["rot"] = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    c["rev"] = draw(st.booleans())
    c["sp"]["trafo"] = draw(st.sampled_from(["affine", "bilinear"])) if c["mesh"]["kind"] != "general" else "bilinear"
    return c


class Moved:
    def __init__(self, u, A, b):
        self.u, self.A, self.b = u, A, b

    def back(self, x, y):
        X, Y = x - self.b[0], y - self.b[1]
        return self.A[0, 0] * X + self.A[1, 0] * Y, self.A[0, 1] * X + self.A[1, 1] * Y

    def __call__(self, x, y):
        return self.u(*self.back(x, y))

    def d(self, x, y, p, q):
        z = self.back(x, y)
        g = np.array([self.u.d(*z, 1, 0), self.u.d(*z, 0, 1)])
        return self.A[0 if p else 1] @ g


def c_move(case, ctx):
    """Moving the whole problem rigidly, reordering cells and renumbering the vertices of a cell leave every cell's loss unchanged."""
    m, fr, u, e = base(case)
    sp = case["sp"]
    f = gen.func(case["f"], *fr)
    C = gen.cell_coords(m)
    t = math.radians(case["ang"])
    A = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    b = np.array(case["sh"]) * fr[2]
    um = Moved(u, A, b)
    fm = lambda x, y: f(*um.back(x, y))
    D = C @ A.T + b
    D = np.array([np.roll(D[k], r, axis=0) for k, r in zip(case["perm"], case["rot"])])
    if case["rev"]:
        D = D[:, ::-1]
    out = []
    for uu, ff, cc in ((u, f, C), (um, fm, np.ascontiguousarray(D))):
        s = build.space(m, sp, forcing=ff, coords=cc)
        d = handler(s, Domain(np.zeros((1, 2))), case["dtype"])
        out.append(call_loss(case, tensors(case, d, uu), len(C)))
    for k, i in enumerate(case["perm"]):
        r = build.RefCell(C[i], sp)
        S = magnitude(r, case, u, f)
        close(out[1][k], out[0][i], 1.0, f"{case['pb']}: loss of cell {i} after moving the problem", 1e-9 * (far_of(r, case) + 1e-2 * np.abs(D).max() / r.size) * S * (math.sqrt(abs(out[0][i])) * sp["n"] + 1e-9 * S))
    return {"pb": case["pb"], "mesh": m["kind"], "angle": case["ang"], "fe": sp["fe"]}


# ---- from a geometry to a training step ----------------------------------------------------------------


@st.composite
def s_full(draw):
    c = draw(net.s_model(max_layers=2))
    c["steps"] = draw(st.integers(1, 2))
    if draw(st.booleans()):
        c["geo"] = {"k": "internal", "lim": [draw(st.sampled_from([0, 0, -1, 2])), draw(st.sampled_from([0, 0, -3])), draw(st.integers(1, 3)), draw(st.integers(1, 2))], "n": [draw(st.integers(1, 3)), draw(st.integers(1, 3))], "nb": draw(st.integers(4, 30))}
        kind = "uniform"
    else:
        c["geo"] = {"k": "external", **draw(gen.medit(2, 2, wild=False)), "level": draw(st.integers(0, 2)), "method": draw(st.sampled_from(["uniform", "lhs"]))}
        kind = c["geo"]["mesh"]["kind"]
    c["sp"] = draw(gen.fespec(kind, 3, 4))
    c["f"] = draw(gen.funcspec(kinds=("poly", "trig", "const")))
    c["g"] = [draw(gen.funcspec(kinds=("poly", "trig", "const"))) for _ in range(3)]
    c["s"] = draw(gen.funcspec(kinds=("poly", "trig")))
    c["nsens"] = draw(st.integers(10, 30))
    return c


def c_full(case, ctx):
    """Geometry, space, data handler and model together: the first steps' losses from the definitions on the geometry's own cells."""
    import matplotlib.pyplot as plt

    g = case["geo"]
    out = ctx.tmp()
    if g["k"] == "internal":
        x0, y0, w, h = g["lim"]
        dom = build.geometry("internal", out, 5, 4, False)
        with sut("generate_quad_mesh_internal"):
            cells, bd = dom.generate_quad_mesh_internal(x_limits=[x0, x0 + w], y_limits=[y0, y0 + h], n_cells_x=g["n"][0], n_cells_y=g["n"][1], num_boundary_points=g["nb"])
    else:
        path = build.write_medit(os.path.join(out, "m.mesh"), g["mesh"], g["opt"])
        dom = build.geometry("external", out)
        cells, bd = build.read(dom, path, g["level"], g["method"], 1)
    C = arr(cells, (None, 4, 2), "cells")
    fr = (C[..., 0].mean(), C[..., 1].mean(), np.ptp(C) / 2)
    f = gen.func(case["f"], *fr)
    gs = {t: gen.func(case["g"][k % 3], *fr) for k, t in enumerate(bd)}
    sp = case["sp"]
    with sut("the mesh object"):
        mesh = dom.mesh
    s = build.space(None, sp, forcing=f, bd=bd, funcs=gs, coords=cells, mesh=mesh)
    d = handler(s, dom, case["dtype"])
    with sut("get_dirichlet_input"):
        XD, YD = d.get_dirichlet_input()
    keep = {}
    nq = sp["q"] ** 2
    case = dict(case, n=[len(C), sp["n"] ** 2, nq])
    inv = case["kind"] in ("inverse", "inverse_cd", "domain")
    XS = np.zeros((1, 2))
    if inv:
        ex = gen.func(case["s"], *fr)
        with sut("get_sensor_data"):
            XS, YS = d.get_sensor_data(ex, case["nsens"], mesh_type="internal")
        plt.close("all")
    # the handler's own tensors go into the model
    import importlib

    import tensorflow as tf

    dummy = net.problem(dict(case, nd=1, ns=1, n=[1, 1, 1]))
    m0 = {}
    net_case = dict(case)
    kw = dict(
        layer_dims=net.dims(case),
        learning_rate_dict=dict(case["lr"]),
        params_dict={"n_cells": s.n_cells},
        loss_function=loss(case["pb"]),
        input_tensors_list=[d.x_pde_list, XD, YD],
        orig_factor_matrices=[d.shape_val_mat_list, d.grad_x_mat_list, d.grad_y_mat_list],
        force_function_list=d.forcing_function_list,
        tensor_dtype=getattr(tf, case["dtype"]),
        activation=case["act"],
    )
    if inv:
        kw["sensor_list"] = [XS, YS]
    with sut("parameters"):
        bil = d.get_bilinear_params_dict_as_tensors(lambda: dict(case["p"]))
        if case["kind"] in ("inverse", "inverse_cd"):
            kw["inverse_params_dict"] = d.get_inverse_params(lambda: {"eps": case["p"]["eps"]})
    if case["kind"] == "hard" and case["hard"]["k"] != "none":
        kw["hard_constraint_function"] = net.hard(case["hard"])[0]
    m = net.make(net_case, dummy, reuse=kw)

    # reference: everything from the cells, the boundary dictionary and the weights
    refs = [build.RefCell(v, sp) for v in C]
    R = {
        "X": np.concatenate([np.stack([r.x, r.y], 1) for r in refs]),
        "V": np.array([r.val for r in refs]),
        "GX": np.array([r.gx for r in refs]),
        "GY": np.array([r.gy for r in refs]),
        "F": np.array([r.val @ (f(r.x, r.y) + 0 * r.x) for r in refs]).T,
        "XD": np.concatenate([np.asarray(bd[t], dtype=float)[:, :2] for t in bd]),
        "YD": np.concatenate([np.array([[float(gs[t](p[0], p[1]))] for p in np.asarray(bd[t], dtype=float)]) for t in bd]),
        "XS": arr(XS),
    }
    R["YS"] = (ex(R["XS"][:, 0], R["XS"][:, 1]) if inv else np.zeros(1)).reshape(-1, 1)
    eps = float(np.dtype(case["dtype"]).type(case["p"]["eps"]))
    tol = 1e-9 if case["dtype"] == "float64" else 3e-4
    for k in range(case["steps"]):
        W = net.get_weights(m, case)
        with sut("train_step"):
            r = m.train_step(beta=net.tf_const(case["beta"], case), bilinear_params_dict=bil)
        o, sc = net.reference(case, R, W, eps=eps)
        for key in o:
            got = float(arr(r[key], None, key).reshape(-1)[0])
            close(got, o[key], tol, f"step {k + 1}: {key}", sc[key])
        if "inverse_params" in r:
            eps = float(r["inverse_params"]["eps"])
    return {"kind": case["kind"], "geometry": g["k"], "dtype": case["dtype"], "pb": case["pb"], "fe": sp["fe"], "nontrivial": len(C) > 1 or len(case["hid"]) > 0}


FACETS = [
    Facet("exact-solution", s_solve, c_solve, 480, rule="generated mesh x bubble family x rule of sufficient order x six equations x polynomial solution (and diffusion field): no residual in any cell; non-trivial: the solution is not zero"),
    Facet("any-function", s_any, c_any, 480, rule="loss of arbitrary polynomials with arbitrary forcing, all families and rules, against the mean square of residuals from the definition"),
    Facet("rigid-motion", s_move, c_move, 320, rule="Poisson/Helmholtz: rotated and shifted problem with reordered cells and renumbered vertices has the same per-cell losses"),
    Facet("full-chain", s_full, c_full, 160, rule="internal or Medit geometry -> space -> data handler -> one of the models: losses of 1-2 training steps from the cells, the boundary dictionary and the weights alone; non-trivial: several cells or hidden layers"),
]
