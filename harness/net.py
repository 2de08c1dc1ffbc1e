"""Independent networks, losses and optimiser for the checks of the models."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
from engine import arr, sut

ACT = ["tanh", "tanh", "sigmoid", "softplus", "swish", "elu", "linear"]


def act(name, a):
    """Activation and its derivative."""
    sg = 1 / (1 + np.exp(-a))
    if name == "tanh":
        t = np.tanh(a)
        return t, 1 - t * t
    if name == "sigmoid":
        return sg, sg * (1 - sg)
    if name == "softplus":
        return np.logaddexp(0, a), sg
    if name == "swish":
        return a * sg, sg + a * sg * (1 - sg)
    if name == "elu":
        return np.where(a > 0, a, np.expm1(np.minimum(a, 0))), np.where(a > 0, 1.0, np.exp(np.minimum(a, 0)))
    return a, np.ones_like(a)


def forward(W, name, X):
    """Outputs and their x and y derivatives of the dense network with weights W (kernel, bias, ...)."""
    h = X.astype(np.float64)
    dx = np.tile([1.0, 0.0], (len(X), 1))
    dy = np.tile([0.0, 1.0], (len(X), 1))
    n = len(W) // 2
    for k in range(n):
        K, b = W[2 * k].astype(np.float64), W[2 * k + 1].astype(np.float64)
        h, dx, dy = h @ K + b, dx @ K, dy @ K
        if k < n - 1:
            h, d = act(name, h)
            dx, dy = dx * d, dy * d
    return h, dx, dy


def weights(dims, seed, scale=1.0):
    r = np.random.RandomState(seed)
    W = []
    for a, b in zip(dims[:-1], dims[1:]):
        W.append(r.randn(a, b) * scale / math.sqrt(a))
        W.append(r.randn(b) * 0.5 * scale)
    return W


# ---- hard constraints: u = g(x, y) + m(x, y) * network -------------------------------------------------


def hard(spec):
    """(function for the model, m, m_x, m_y, g, g_x, g_y) or None for the default."""
    import tensorflow as tf

    k = spec["k"]
    if k == "none":
        one = lambda x, y: 1.0 + 0 * x
        zero = lambda x, y: 0.0 * x
        return None, one, zero, zero, zero, zero, zero
    a, b, c = spec["g"]
    G = lambda x, y: a + b * x + c * x * y
    gx = lambda x, y: b + c * y
    gy = lambda x, y: c * x
    if k == "bubble":
        m = lambda x, y: x * (1 - x) * y * (1 - y)
        mx = lambda x, y: (1 - 2 * x) * y * (1 - y)
        my = lambda x, y: x * (1 - x) * (1 - 2 * y)

        def f(inputs, out):
            x, y = inputs[:, 0:1], inputs[:, 1:2]
            return a + b * x + c * x * y + x * (1 - x) * y * (1 - y) * out

    else:
        s = 4.0
        t = lambda z: np.tanh(s * z)
        dt = lambda z: s * (1 - np.tanh(s * z) ** 2)
        m = lambda x, y: t(x) * t(y) * t(x - 1) * t(y - 1)
        mx = lambda x, y: t(y) * t(y - 1) * (dt(x) * t(x - 1) + t(x) * dt(x - 1))
        my = lambda x, y: t(x) * t(x - 1) * (dt(y) * t(y - 1) + t(y) * dt(y - 1))

        def f(inputs, out):
            x, y = inputs[:, 0:1], inputs[:, 1:2]
            return a + b * x + c * x * y + tf.tanh(s * x) * tf.tanh(s * y) * tf.tanh(s * (x - 1)) * tf.tanh(s * (y - 1)) * out

    return f, m, mx, my, G, gx, gy


def constrained(h, X, F):
    """Apply the constraint to (u, u_x, u_y)."""
    u, ux, uy = h
    x, y = X[:, :1], X[:, 1:]
    f, m, mx, my, g, gx, gy = F
    return g(x, y) + m(x, y) * u, gx(x, y) + mx(x, y) * u + m(x, y) * ux, gy(x, y) + my(x, y) * u + m(x, y) * uy


# ---- cases ---------------------------------------------------------------------------------------------

KINDS = ["dense", "hard", "inverse", "inverse_cd", "domain"]


@st.composite
def s_model(draw, kinds=KINDS, max_layers=3, max_steps=3, acts=ACT, dtypes=("float64", "float64", "float32"), odd=False):
    kind = draw(st.sampled_from(list(kinds)))
    n = [draw(gen.few(st.integers(1, 3), st.integers(4, 70))), draw(gen.few(st.integers(1, 4), st.integers(5, 90))), draw(gen.few(st.integers(1, 5), st.integers(6, 200)))]
    hid = [draw(st.integers(1, 6)) for _ in range(draw(st.integers(1, max_layers)))]
    if draw(st.integers(0, 11)) == 11:  # deep or wide
        hid = draw(st.one_of(st.lists(st.integers(2, 8), min_size=4, max_size=9), st.lists(st.integers(10, 80), min_size=1, max_size=3)))
    if draw(st.integers(0, 7)) == 0:
        hid = []
    c = {
        "kind": kind,
        "pb": draw(st.sampled_from(["poisson", "cd2d", "helmholtz"])) if kind in ("dense", "hard") else {"inverse": "poisson_inverse", "inverse_cd": "cd2d_inverse", "domain": "cd2d_inverse_domain"}[kind],
        "n": n,
        "nd": draw(gen.few(st.integers(1, 5), gen.few(st.integers(6, 900), st.integers(901, 6000), 4))),
        "ns": draw(gen.few(st.integers(1, 4), gen.few(st.integers(5, 600), st.integers(601, 4000), 4))),
        "hid": hid,
        "act": draw(st.sampled_from(acts)),
        "dtype": draw(st.sampled_from(list(dtypes))),
        "seed": draw(st.integers(0, 10**6)),
        "p": {k: draw(gen.coef()) for k in ("eps", "b_x", "b_y", "c", "k")},
        "beta": draw(st.sampled_from([0.0, 1.0, 10.0, 2.5, 1000.0, 0.1, 1 / 3])),
        "bform": draw(st.sampled_from(["tensor", "tensor", "tensor", "float", "default"])),
        "pform": draw(st.sampled_from(["tensor", "tensor", "tensor", "float"])),
        "steps": draw(st.integers(1, max_steps)),
        "lr": {
            "initial_learning_rate": draw(gen.few(st.sampled_from([1e-3, 1e-2, 0.1]), st.sampled_from([1e-6, 1e-5, 3e-5, 1e-4]), 5)),
            "use_lr_scheduler": draw(st.booleans()),
            "decay_steps": draw(gen.few(st.integers(1, 3), st.sampled_from([10, 100, 1000, 10000]))),
            "decay_rate": draw(gen.few(st.sampled_from([0.5, 0.9, 0.99]), st.sampled_from([0.1, 0.01, 0.999, 1.0]))),
        },
    }
    if c["bform"] == "default":
        c["beta"] = 10.0
    stair = draw(st.sampled_from([None, True, False]))
    if stair is not None:
        c["lr"]["staircase"] = stair
    if kind == "hard":
        c["hard"] = {"k": draw(st.sampled_from(["none", "bubble", "tanh"])), "g": [draw(gen.frac(-2, 2)) for _ in range(3)]}
    if odd:
        k = draw(st.integers(0, 11))
        if k in (0, 1) and kind != "hard":  # the domain is far larger or smaller than the unit square, away from the origin
            c["dtype"] = "float64"
            c["far"] = [draw(st.sampled_from([1e-3, 0.1, 20.0, 1e3, 1e5])), draw(gen.frac(-2, 2)), draw(gen.frac(-2, 2))]
        elif k in (2, 3, 4):  # single values of the data which are far larger than all others
            c["out"] = draw(st.sampled_from([30.0, 1e3, 1e6]))
    return c


# ---- problems of the user's own: nonlinear, with any of the coefficients unknown --------------------------

OWN = ["A", "B", "C", "D", "E"]


@st.composite
def s_own(draw, kinds=KINDS, **kw):
    """A model with a loss function of the user's own instead of a shipped one."""
    c = draw(s_model(kinds, **kw))
    c["pb"] = "own"
    c["form"] = draw(st.sampled_from(["mean", "mean", "mixed", "scalar"]))
    c["wrap"] = draw(st.sampled_from(["plain", "tf", "partial", "object"]))
    c["p"] = {k: draw(gen.coef()) for k in OWN}
    if c["kind"] in ("inverse", "inverse_cd"):
        c["kind"] = "inverse"
        c["unk"] = draw(st.lists(st.sampled_from(OWN), min_size=1, max_size=4, unique=True))
    if c["kind"] == "domain":
        c["field"] = draw(st.sampled_from(OWN))
    return c


def unknowns(case):
    """Names of the unknown constants, in the order in which the model gets them."""
    return case.get("unk", ["eps"]) if case["kind"] in ("inverse", "inverse_cd") else []


def own_residual(g, V, GX, GY, u, ux, uy, F, ein, T):
    return ein("ciq,cq->ci", GX, g("A") * ux) + ein("ciq,cq->ci", GY, g("B") * uy) + ein("ciq,cq->ci", V, g("C") * u + g("D") * u * u + g("E") * u * ux) - T(F)


def own_loss(case):
    """The user's loss function: the library hands everything over by name."""
    import functools

    import tensorflow as tf

    def f(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, inverse_params_dict=None, inverse_params_list=None):
        def g(k):
            if k == case.get("field"):
                return inverse_params_list[0]
            if k in case.get("unk", []):
                return inverse_params_dict[k]
            return bilinear_params[k]

        R = own_residual(g, test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, tf.einsum, tf.transpose)
        r = tf.reduce_mean(R * R + (0.5 * R if case["form"] == "mixed" else 0 * R), axis=1)
        return tf.reduce_sum(r) if case["form"] == "scalar" else r

    if case["wrap"] == "tf":
        return tf.function(f)
    if case["wrap"] == "partial":
        return functools.partial(f, inverse_params_dict=None) if case["kind"] not in ("inverse", "inverse_cd") else functools.partial(f, inverse_params_list=None)
    if case["wrap"] == "object":

        class Loss:
            def __call__(self, **kw):
                return f(**kw)

        return Loss()
    return f


def own_losses(case, d, u, ux, uy, p, e):
    """Equation loss and its magnitude; e: values of the unknowns by name (constants or the field)."""
    g = lambda k: e[k] if k in e else p[k]
    a = lambda k: np.abs(g(k))
    R = own_residual(g, d["V"], d["GX"], d["GY"], u, ux, uy, d["F"], np.einsum, np.transpose)
    S = own_residual(a, *[np.abs(x) for x in (d["V"], d["GX"], d["GY"], u, ux, uy)], -np.abs(d["F"]), np.einsum, np.transpose)
    return (R * R + (0.5 * R if case["form"] == "mixed" else 0)).mean(1).sum(), 4 * (S * S + S).mean(1).sum()


def start(case):
    """Weights a model of the case starts with."""
    W = weights(dims(case), case.get("wseed", case["seed"] + 7))
    if "far" in case:  # so that the network resolves the domain
        W[0] = W[0] / case["far"][0]
    return W


def dims(case):
    return [2] + case["hid"] + [2 if case["kind"] == "domain" else 1]


def problem(case):
    """Random data of a problem as float64 arrays which are exact in the case's precision."""
    r = np.random.RandomState(case["seed"])
    nc, nt, nq = case["n"]
    rd = lambda *s: r.randn(*s).astype(case["dtype"]).astype(np.float64)
    d = {
        "X": r.rand(nc * nq, 2).astype(case["dtype"]).astype(np.float64),
        "V": rd(nc, nt, nq),
        "GX": rd(nc, nt, nq),
        "GY": rd(nc, nt, nq),
        "F": rd(nt, nc),
        "XD": r.rand(case["nd"], 2).astype(case["dtype"]).astype(np.float64),
        "YD": rd(case["nd"], 1),
        "XS": r.rand(case["ns"], 2).astype(case["dtype"]).astype(np.float64),
        "YS": rd(case["ns"], 1),
    }
    if "far" in case:
        s, x, y = case["far"]
        for k in ("X", "XD", "XS"):
            d[k] = (d[k] + [x, y]) * s
    if "out" in case:
        for k in ("F", "YD", "YS"):
            d[k][r.randint(d[k].shape[0]), r.randint(d[k].shape[1])] = float(np.dtype(case["dtype"]).type(case["out"] * r.choice([-1, 1])))
    return d


def tf_const(x, case):
    import tensorflow as tf

    return tf.constant(np.asarray(x), dtype=getattr(tf, case["dtype"]))


def make(case, d, set_weights=True, keep=None, reuse=None):
    """The model under test for the case; keep collects the objects handed to it, reuse hands over those of another model."""
    import importlib

    import tensorflow as tf

    from props.p01 import loss

    T = lambda x: tf_const(x, case)
    mod, cls = {
        "dense": ("model", "DenseModel"),
        "hard": ("model_hard", "DenseModel_Hard"),
        "inverse": ("model_inverse", "DenseModel_Inverse"),
        "inverse_cd": ("model_inverse", "DenseModel_Inverse"),
        "domain": ("model_inverse_domain", "DenseModel_Inverse_Domain"),
    }[case["kind"]]
    kw = dict(
        layer_dims=dims(case),
        learning_rate_dict=dict(case["lr"]),
        params_dict={"n_cells": case["n"][0]},
        loss_function=own_loss(case) if case["pb"] == "own" else loss(case["pb"]),
        input_tensors_list=[T(d["X"]), T(d["XD"]), T(d["YD"])],
        orig_factor_matrices=[T(d["V"]), T(d["GX"]), T(d["GY"])],
        force_function_list=T(d["F"]),
        tensor_dtype=getattr(tf, case["dtype"]),
        activation=case["act"],
    )
    if case["kind"] in ("inverse", "inverse_cd", "domain"):
        kw["sensor_list"] = [T(d["XS"]), T(d["YS"])]
    if case["kind"] in ("inverse", "inverse_cd"):
        kw["inverse_params_dict"] = {k: T(case["p"][k]) for k in unknowns(case)}
    if case["kind"] == "hard" and case["hard"]["k"] != "none":
        kw["hard_constraint_function"] = hard(case["hard"])[0]
    if reuse is not None:
        kw = dict(reuse)
    if keep is not None:
        keep.update(kw)
    with sut(f"creating {cls}"):
        m = getattr(importlib.import_module("fastvpinns.model." + mod), cls)(**kw)
    if set_weights:
        put_weights(m, case, start(case))
    return m


def net_vars(m, case):
    """The network's kernels and biases, in order (the unknown coefficients are not among them)."""
    k = 2 * (len(dims(case)) - 1)
    with sut("trainable variables"):
        v = [x for l in m.layer_list for x in l.trainable_variables] if hasattr(m, "layer_list") else list(m.trainable_variables)[:k]
    return v


def put_weights(m, case, W):
    v = net_vars(m, case)
    assert len(v) == len(W), (len(v), len(W))
    for a, b in zip(v, W):
        a.assign(b.astype(case["dtype"]))


def get_weights(m, case):
    return [np.array(x.numpy(), dtype=np.float64) for x in net_vars(m, case)]


def bil(case, p=None):
    p = case["p"] if p is None else p
    if case.get("pform") == "float":
        return {k: float(v) for k, v in p.items()}
    return {k: tf_const(v, case) for k, v in p.items()}


def penalty(case, beta=None):
    """Keyword arguments by which the penalty reaches train_step: a tensor, a number, or none at all."""
    b = case["beta"] if beta is None else beta
    form = case.get("bform", "tensor")
    if form == "default" and b == 10.0:
        return {}
    return {"beta": float(b) if form == "float" else tf_const(b, case)}


def step(m, case, beta=None, p=None):
    """One training step; returns the reported losses as floats."""
    with sut("train_step"):
        r = m.train_step(**penalty(case, beta), bilinear_params_dict=bil(case, p))
    out = {}
    for k in ("loss_pde", "loss_dirichlet", "loss") + (("sensor_loss",) if case["kind"] in ("inverse", "inverse_cd", "domain") else ()):
        a = arr(r[k], None, k)
        if a.size != 1:
            from engine import fail

            fail(f"{k} has {a.size} entries")
        out[k] = float(a.reshape(-1)[0])
    out["raw"] = r
    return out


def reference(case, d, W, eps=None, p=None, beta=None):
    """Losses from the definitions at the given weights, and magnitudes for the tolerances."""
    from props.p01 import residuals

    nc, nt, nq = case["n"]
    p = {k: float(np.dtype(case["dtype"]).type(v)) for k, v in (case["p"] if p is None else p).items()}
    beta = float(np.dtype(case["dtype"]).type(case["beta"] if beta is None else beta))
    h = forward(W, case["act"], d["X"])
    hd = forward(W, case["act"], d["XD"])[0]
    hs = forward(W, case["act"], d["XS"])[0]
    e = None
    if case["kind"] == "hard":
        h = constrained(h, d["X"], hard(case["hard"]))
    if case["kind"] == "domain":
        e = h[0][:, 1].reshape(nc, nq)
        h = tuple(k[:, :1] for k in h)
        hd, hs = hd[:, :1], hs[:, :1]
    if case["kind"] in ("inverse", "inverse_cd"):
        e = p[unknowns(case)[0]] if eps is None else eps
    if case["pb"] == "own":
        e = {} if e is None else {case["field"]: e} if case["kind"] == "domain" else e
        a, b = own_losses(case, d, *[k.reshape(nc, nq) for k in h], p, e)
        out, sc = {"loss_pde": a}, {"loss_pde": b}
    else:
        R, S = residuals(case["pb"], d["V"], d["GX"], d["GY"], *[k.reshape(nc, nq) for k in h], d["F"], p, e)
        out = {"loss_pde": (R**2).mean(1).sum()}
        sc = {"loss_pde": 4 * (S**2).mean(1).sum()}
    if case["kind"] == "hard":
        out["loss_dirichlet"], sc["loss_dirichlet"] = 0.0, 1e-300
        out["loss"], sc["loss"] = out["loss_pde"], sc["loss_pde"]
        return out, sc
    out["loss_dirichlet"] = np.mean((hd - d["YD"]) ** 2)
    sc["loss_dirichlet"] = np.mean((np.abs(hd) + np.abs(d["YD"]) + 1) ** 2)
    out["loss"] = out["loss_pde"] + beta * out["loss_dirichlet"]
    sc["loss"] = sc["loss_pde"] + abs(beta) * sc["loss_dirichlet"]
    if case["kind"] != "dense":
        out["sensor_loss"] = np.mean((hs - d["YS"]) ** 2)
        sc["sensor_loss"] = np.mean((np.abs(hs) + np.abs(d["YS"]) + 1) ** 2)
        out["loss"] += 10 * out["sensor_loss"]
        sc["loss"] += 10 * sc["sensor_loss"]
    return out, sc


def tolerance(case):
    return 1e-11 if case["dtype"] == "float64" else 2e-5


# ---- gradient and optimiser ----------------------------------------------------------------------------


def tf_act(name):
    import tensorflow as tf

    return {"tanh": tf.tanh, "sigmoid": tf.sigmoid, "softplus": tf.math.softplus, "swish": lambda a: a * tf.sigmoid(a), "elu": lambda a: tf.where(a > 0, a, tf.math.expm1(tf.minimum(a, 0 * a))), "linear": lambda a: a}[name]


def act_d(name):
    """First derivative as a TF expression, so that the network's derivative needs no inner tape."""
    import tensorflow as tf

    sg = tf.sigmoid
    return {
        "tanh": lambda a: 1 - tf.tanh(a) ** 2,
        "sigmoid": lambda a: sg(a) * (1 - sg(a)),
        "softplus": lambda a: sg(a),
        "swish": lambda a: sg(a) + a * sg(a) * (1 - sg(a)),
        "elu": lambda a: tf.where(a > 0, 1.0 + 0 * a, tf.exp(tf.minimum(a, 0 * a))),
        "linear": lambda a: 1.0 + 0 * a,
    }[name]


def gradients(case, d, W, eps=None, p=None, beta=None):
    """Gradient of the total loss with respect to weights (and the unknown constant), by a forward-mode network."""
    import tensorflow as tf

    nc, nt, nq = case["n"]
    p = case["p"] if p is None else p
    beta = case["beta"] if beta is None else beta
    Wt = [tf.constant(w) for w in W]
    extra = [tf.constant(np.float64(eps[k] if isinstance(eps, dict) else eps)) for k in unknowns(case)]
    f, df = tf_act(case["act"]), act_d(case["act"])
    n = len(W) // 2

    def net(X):
        h = tf.constant(X)
        dx = tf.constant(np.tile([1.0, 0.0], (len(X), 1)))
        dy = tf.constant(np.tile([0.0, 1.0], (len(X), 1)))
        for k in range(n):
            h, dx, dy = h @ Wt[2 * k] + Wt[2 * k + 1], dx @ Wt[2 * k], dy @ Wt[2 * k]
            if k < n - 1:
                g = df(h)
                h, dx, dy = f(h), dx * g, dy * g
        return h, dx, dy

    with tf.GradientTape() as tape:
        tape.watch(Wt + extra)
        h = net(d["X"])
        e = None
        if case["kind"] == "hard":
            F = hard(case["hard"])
            x, y = d["X"][:, :1], d["X"][:, 1:]
            _, m, mx, my, g, gx, gy = F
            u, ux, uy = h
            h = (g(x, y) + m(x, y) * u, gx(x, y) + mx(x, y) * u + m(x, y) * ux, gy(x, y) + my(x, y) * u + m(x, y) * uy)
        if case["kind"] == "domain":
            e = tf.reshape(h[0][:, 1], [nc, nq])
            h = tuple(k[:, :1] for k in h)
        u, ux, uy = (tf.reshape(k, [nc, nq]) for k in h)
        if extra:
            e = extra[0]
        if case["pb"] == "own":
            names = dict(zip(unknowns(case), extra), **({case["field"]: e} if case["kind"] == "domain" else {}))
            R = own_residual(lambda k: names[k] if k in names else p[k], *[tf.constant(d[k]) for k in ("V", "GX", "GY")], u, ux, uy, tf.constant(d["F"]), tf.einsum, tf.transpose)
            loss = tf.reduce_sum(R * R + (0.5 if case["form"] == "mixed" else 0) * R) / nt
        else:
            if e is None:
                e = p["eps"]
            D = tf.einsum("ciq,cq->ci", tf.constant(d["GX"]), e * ux) + tf.einsum("ciq,cq->ci", tf.constant(d["GY"]), e * uy)
            V = tf.constant(d["V"])
            R = D
            if case["pb"] == "helmholtz":
                R = -D + p["k"] ** 2 * tf.einsum("ciq,cq->ci", V, u)
            if case["pb"].startswith("cd2d"):
                R = D + tf.einsum("ciq,cq->ci", V, p["b_x"] * ux + p["b_y"] * uy + p["c"] * u)
            R = R - tf.constant(d["F"].T)
            loss = tf.reduce_sum(R * R) / nt
        if case["kind"] != "hard":
            loss += beta * tf.reduce_mean((net(d["XD"])[0][:, :1] - d["YD"]) ** 2)
        if case["kind"] in ("inverse", "inverse_cd", "domain"):
            loss += 10 * tf.reduce_mean((net(d["XS"])[0][:, :1] - d["YS"]) ** 2)
    g = tape.gradient(loss, Wt + extra, unconnected_gradients=tf.UnconnectedGradients.ZERO)
    return [k.numpy() for k in g]


class Adam:
    def __init__(self, lr):
        self.lr, self.t, self.m, self.v = lr, 0, None, None

    def rate(self):
        L = self.lr
        r = L["initial_learning_rate"]
        if L["use_lr_scheduler"]:
            k = self.t / L["decay_steps"]
            if L.get("staircase", True):
                k = math.floor(k)
            r *= L["decay_rate"] ** k
        return r

    def update(self, W, g):
        r = self.rate()
        self.t += 1
        if self.m is None:
            self.m = [0 * x for x in g]
            self.v = [0 * x for x in g]
        self.m = [0.9 * m + 0.1 * x for m, x in zip(self.m, g)]
        self.v = [0.999 * v + 0.001 * x * x for v, x in zip(self.v, g)]
        # Keras takes the betas of the bias correction and the rate through single precision
        b1, b2, r = float(np.float32(0.9)), float(np.float32(0.999)), float(np.float32(r))
        a = r * math.sqrt(1 - b2**self.t) / (1 - b1**self.t)
        return [w - a * m / (np.sqrt(v) + 1e-7) for w, m, v in zip(W, self.m, self.v)], r
