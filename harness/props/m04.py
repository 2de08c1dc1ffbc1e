"""M04: predictions of the models, exactly imposed boundary values, configuration round trip."""
import numpy as np
from hypothesis import strategies as st

import gen
import net
from engine import Facet, arr, close, need, sut


def expected(case, W, X):
    """The network's outputs at the points, and magnitudes for the tolerance."""
    u = net.forward(W, case["act"], X)
    mag = np.ones(len(X))
    for k in range(len(W) // 2):  # bound of the sums in each layer
        mag = mag * max(1.0, np.abs(W[2 * k]).sum(0).max()) * max(1.0, np.abs(X).max() if k == 0 else 1.0) + np.abs(W[2 * k + 1]).max()
    s = mag.max() * np.ones_like(u[0])
    if case["kind"] == "hard":
        F = net.hard(case["hard"])
        x, y = X[:, :1], X[:, 1:]
        s = np.abs(F[4](x, y)) + 3 * (1 + np.abs(x) + np.abs(y) + np.abs(x * y)) + np.maximum(np.abs(F[1](x, y)), np.abs(x) + np.abs(y) + 1) * s
        return net.constrained(u, X, F)[0], s
    return u[0], s


def as_input(X, how):
    import tensorflow as tf

    if how == "np64":
        return X.astype(np.float64)
    if how == "np32":
        return X.astype(np.float32)
    if how.startswith("view"):  # an array which is not contiguous
        return np.repeat(X.astype(np.float64), 2, axis=1)[::-1, ::2][::-1]
    if how.startswith("var"):
        return tf.Variable(X, dtype=tf.float64 if how == "var64" else tf.float32)
    return tf.constant(X, dtype=tf.float64 if how == "tf64" else tf.float32)


HOW = ["np64", "np32", "tf64", "tf32", "var64", "var32", "view64"]


@st.composite
def s_forward(draw):
    c = draw(net.s_model())
    k = draw(st.integers(1, 4))
    c["calls"] = [
        {"n": draw(gen.few(st.sampled_from([1, 1, 2, 3, 7, 50, 300, 1100, 5000]), st.one_of(st.integers(5001, 70000), st.sampled_from([8193, 16385, 20000, 32769, 65537])), 8)), "how": draw(st.sampled_from(HOW)), "seed": draw(st.integers(0, 10**6)), "r": draw(st.sampled_from([1.0, 1.0, 5.0, 150.0, 1e4])), "step": draw(st.booleans()), "w": draw(st.one_of(st.none(), st.none(), st.integers(0, 10**6)))}
        for _ in range(k)
    ]
    return c


def c_forward(case, ctx):
    import tensorflow as tf

    d = net.problem(case)
    m = net.make(case, d)
    T = np.dtype(case["dtype"])
    for k, call in enumerate(case["calls"]):
        if call["w"] is not None:
            net.put_weights(m, case, net.weights(net.dims(case), call["w"], 2.0))
        if call["step"]:
            net.step(m, case)
        W = net.get_weights(m, case)
        if call["r"] > 5:  # far away points, resolved by the network
            W[0] = (W[0] / call["r"]).astype(T).astype(np.float64)
            net.put_weights(m, case, W)
        X = ((np.random.RandomState(call["seed"]).rand(call["n"], 2) - 0.3) * call["r"]).astype(np.float32)
        if call["how"].endswith("64") and case["dtype"] == "float64":
            X = (np.random.RandomState(call["seed"]).rand(call["n"], 2) - 0.3) * call["r"]  # not representable in single precision
        with sut(f"evaluating the model at {call['how']} points"):
            p = m(as_input(X, call["how"]))
        need(p.dtype == getattr(tf, case["dtype"]), lambda: f"a {case['dtype']} model returns {p.dtype}")
        p = arr(p, (call["n"], net.dims(case)[-1]), f"prediction {k + 1} ({call['how']})")
        r, s = expected(case, W, X.astype(np.float64))
        close(p, r, 64 * np.finfo(T).eps, f"prediction {k + 1} ({call['how']} points)", s)
    return {"kind": case["kind"], "dtype": case["dtype"], "act": case["act"], "layers": len(case["hid"])}


@st.composite
def s_hard(draw):
    c = draw(net.s_model(("hard",)))
    c["hard"] = {"k": draw(st.sampled_from(["bubble", "tanh"])), "g": [draw(gen.frac(-2, 2)) for _ in range(3)]}
    c["scale"] = draw(st.sampled_from([1.0, 10.0]))
    c["t"] = draw(st.lists(gen.frac(0, 1), min_size=1, max_size=6))
    return c


def c_hard(case, ctx):
    """Whatever the weights, before and after training: boundary predictions are the imposed values."""
    d = net.problem(case)
    m = net.make(case, d)
    net.put_weights(m, case, net.weights(net.dims(case), case["seed"], case["scale"]))
    t = np.array(case["t"])
    z, o = np.zeros_like(t), np.ones_like(t)
    X = np.concatenate([np.c_[t, z], np.c_[t, o], np.c_[z, t], np.c_[o, t]]).astype(case["dtype"]).astype(np.float64)
    a, b, c = case["hard"]["g"]
    g = (a + b * X[:, 0] + c * X[:, 0] * X[:, 1])[:, None]
    eps = np.finfo(case["dtype"]).eps
    for k in range(case["steps"] + 1):
        with sut("evaluating the model"):
            p = arr(m(net.tf_const(X, case)), (len(X), 1), "boundary prediction")
        close(p, g, 16 * eps, f"boundary values after {k} steps", abs(a) + abs(b) + abs(c) + 1e-30)
        out = net.step(m, case)
        need(out["loss_dirichlet"] == 0, lambda: f"boundary loss {out['loss_dirichlet']} of an exactly imposed boundary")
    return {"mask": case["hard"]["k"], "dtype": case["dtype"]}


def c_config(case, ctx):
    """A model rebuilt from its configuration is the same model: same predictions and losses with the same weights."""
    d = net.problem(case)
    m = net.make(case, d)
    for _ in range(case["steps"] - 1):
        net.step(m, case)
    with sut("get_config"):
        cfg = m.get_config()
    with sut("from_config(get_config())"):
        m2 = type(m).from_config(cfg)
    W = net.get_weights(m, case)
    net.put_weights(m2, case, W)
    X = np.random.RandomState(case["seed"]).rand(9, 2)
    with sut("evaluating the models"):
        a, b = arr(m(net.tf_const(X, case))), arr(m2(net.tf_const(X, case)))
    need(a.shape == b.shape, "the rebuilt model has another output shape")
    need(np.array_equal(a, b), lambda: f"predictions of the rebuilt model differ by {np.max(np.abs(a - b))}")
    u, v = net.step(m, case), net.step(m2, case)
    for k in u:
        if k == "raw":
            continue
        close(v[k], u[k], 100 * np.finfo(case["dtype"]).eps, f"{k} of the rebuilt model", abs(u[k]) + 1e-30)
    if case["steps"] == 1:
        for q in net.unknowns(case):
            close(float(v["raw"]["inverse_params"][q]), float(u["raw"]["inverse_params"][q]), 1e-6, f"unknown coefficient {q} of the rebuilt model", abs(case["p"][q]) + 1)
    return {"kind": case["kind"], "steps": case["steps"], "layers": len(case["hid"])}


def c_fresh(case, ctx):
    """A new model has the requested layers, in the requested precision, ready for use."""
    d = net.problem(case)
    m = net.make(case, d, set_weights=False)
    D = net.dims(case)
    v = net.net_vars(m, case)
    shapes = [tuple(x.shape) for x in v]
    want = [s for a, b in zip(D[:-1], D[1:]) for s in ((a, b), (b,))]
    need(shapes == want, lambda: f"weights have shapes {shapes}, layers {D} need {want}")
    need(all(x.dtype.name == case["dtype"] for x in v), lambda: f"weights of a {case['dtype']} model are {[x.dtype.name for x in v]}")
    W = net.get_weights(m, case)
    need(all(np.all(np.isfinite(w)) for w in W), "initial weights are not finite")
    need(all(np.any(w != 0) for w in W[::2]), "an initial kernel is zero")
    n = len(v) + (1 if case["kind"] in ("inverse", "inverse_cd") else 0)
    with sut("trainable_variables"):
        k = len(m.trainable_variables)
    need(k == n, lambda: f"{k} trainable variables instead of {n}")
    X = np.random.RandomState(case["seed"]).rand(4, 2)
    with sut("evaluating the new model"):
        p = arr(m(net.tf_const(X, case)), (4, D[-1]), "prediction of a new model")
    r, s = expected(case, W, X.astype(case["dtype"]).astype(np.float64))
    close(p, r, 64 * np.finfo(case["dtype"]).eps, "prediction of a new model", s)
    return {"kind": case["kind"], "layers": len(case["hid"])}


@st.composite
def s_saved(draw):
    c = draw(st.one_of(net.s_model(), net.s_model(), net.s_own()))
    # Keras' HDF5 files hold the layers' weights only, not a variable kept outside of layers like the unknown coefficient
    c["how"] = draw(st.sampled_from(["file", "file", "arrays"] + (["h5"] if not c["kind"].startswith("inverse") else [])))
    c["more"] = draw(st.booleans())  # the first model is trained on after its weights were saved
    c["used"] = draw(st.booleans())  # the second model is trained before it gets the weights
    return c


def c_saved(case, ctx):
    """Weights saved from one model and loaded into another one of the same kind make it the same model."""
    import os

    d = net.problem(case)
    m = net.make(case, d)
    for _ in range(case["steps"]):
        net.step(m, case)
    other = dict(case, p={k: v + 0.5 * (k in net.unknowns(case)) for k, v in case["p"].items()}, wseed=case["seed"] + 31)
    m2 = net.make(other, d)
    if case["used"]:
        net.step(m2, other)
    X = np.random.RandomState(case["seed"]).rand(9, 2)
    W = net.get_weights(m, case)
    with sut("evaluating the model"):
        a = arr(m(net.tf_const(X, case)))
    f = os.path.join(ctx.tmp(), "model_weights" + (".h5" if case["how"] == "h5" else ""))
    if case["how"] == "arrays":
        with sut("get_weights"):
            w = m.get_weights()
    else:
        with sut("save_weights"):
            m.save_weights(f)
    if case["more"]:
        for _ in range(2):
            net.step(m, case)
    if case["how"] == "arrays":
        with sut("set_weights"):
            m2.set_weights(w)
    else:
        with sut("load_weights"):
            m2.load_weights(f)
    V = net.get_weights(m2, case)
    for k, (v, w) in enumerate(zip(V, W)):
        need(np.array_equal(v, w), lambda: f"weight array {k} after loading differs by {np.abs(v - w).max()}")
    with sut("evaluating the model"):
        b = arr(m2(net.tf_const(X, case)))
    need(np.array_equal(a, b), lambda: f"predictions after loading differ by {np.abs(a - b).max()}")
    if not case["more"]:  # both models must report the same losses now
        u, v = net.step(m, case), net.step(m2, case)
        for k in u:
            if k != "raw":
                close(v[k], u[k], 100 * np.finfo(case["dtype"]).eps, f"{k} after loading", abs(u[k]) + 1e-30)
    return {"kind": case["kind"], "how": case["how"], "nontrivial": len(case["hid"]) > 0}


FACETS = [
    Facet("forward", s_forward, c_forward, 240, rule="model x network x weights x 1-4 calls with batches of 1..70000 points in domains of size 1..1e4 given as numpy/tensor in either precision, weights changed or trained in between, against a numpy network; dtype and shape of the result"),
    Facet("hard-boundary", s_hard, c_hard, 96, rule="hard-constraint model: predictions on the boundary before and after training steps equal the imposed values to machine precision, boundary loss zero"),
    Facet("configuration", lambda: st.one_of(net.s_model(), net.s_model(), net.s_own()), c_config, 80, rule="from_config(get_config()) with the same weights: same predictions and losses, also with loss functions of the user's own and several unknowns"),
    Facet("saved-weights", s_saved, c_saved, 48, rule="weights (and the unknown coefficient) saved to a file or taken as arrays after training and loaded into another model: same weights, predictions and next losses; non-trivial: hidden layers"),
    Facet("new-model", lambda: net.s_model(), c_fresh, 120, rule="layer shapes, precision, trainable variables and predictions of a newly created model"),
]
