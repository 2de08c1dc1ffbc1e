"""M03: training follows Adam with the configured learning-rate schedule on the gradient of the total loss."""
import numpy as np
from hypothesis import strategies as st

import gen
import net
from engine import Facet, arr, close, need, sut
from props.m02 import Unknown

KINDS = ["dense", "dense", "hard", "inverse", "inverse_cd", "domain"]


@st.composite
def s_train(draw, kinds=tuple(KINDS), steps=(2, 6)):
    c = draw(net.s_model(kinds, max_layers=2, acts=["tanh", "tanh", "sigmoid", "softplus", "swish"], dtypes=("float64",)))
    c["steps"] = draw(st.integers(*steps))
    return c


@st.composite
def s_own(draw, kinds=tuple(KINDS), steps=(2, 6)):
    """As s_train, with a loss function of the user's own."""
    c = draw(net.s_own(kinds, max_layers=2, acts=["tanh", "tanh", "sigmoid", "softplus", "swish"], dtypes=("float64",)))
    c["steps"] = draw(st.integers(*steps))
    return c


class Shadow:
    """Reference trainer: weights and unknown constant evolve by our own gradient and Adam."""

    def __init__(self, case, d):
        self.case, self.d = case, d
        self.W = net.start(case)
        v = {k: float(case["p"][k]) for k in net.unknowns(case)}
        self.eps = v if "unk" in case else v.get("eps")
        self.opt = net.Adam(case["lr"])
        self.moved = 0.0
        self.lrsum = 0.0

    def step(self, **kw):
        g = net.gradients(self.case, self.d, self.W, eps=self.eps, **kw)
        names = net.unknowns(self.case)
        x = self.W + [np.float64(self.eps[k] if isinstance(self.eps, dict) else self.eps) for k in names]
        y, r = self.opt.update(x, g)
        self.lrsum += r
        self.moved = max(self.moved, max(np.max(np.abs(a - b)) if np.size(a) else 0 for a, b in zip(x, y)))
        self.W = y[: len(self.W)]
        if names:
            v = dict(zip(names, map(float, y[len(self.W) :])))
            self.eps = v if isinstance(self.eps, dict) else v["eps"]

    def check(self, m, u, what):
        W = net.get_weights(m, self.case)
        # rounding of gradients which nearly vanish is magnified by Adam, up to lr * rounding / 1e-7
        t = 1e-4 * self.lrsum + 1e-9
        for k, (a, b) in enumerate(zip(W, self.W)):
            close(a, b, 1.0, f"{what}: {'kernel' if k % 2 == 0 else 'bias'} of layer {k // 2 + 1}", t)
        if isinstance(self.eps, dict):
            for k in self.eps:
                close(u.v[k], self.eps[k], 1.0, f"{what}: unknown coefficient {k}", t)
        elif self.eps is not None:
            close(u.v, self.eps, 1.0, f"{what}: unknown coefficient", t)


def lab(case):
    L = case["lr"]
    return {"kind": case["kind"], "schedule": ("stair" if L.get("staircase", True) else "smooth") if L["use_lr_scheduler"] else "constant", "steps": case["steps"]}


def c_train(case, ctx):
    d = net.problem(case)
    m = net.make(case, d)
    s, u = Shadow(case, d), Unknown(dict(case, kind=case["kind"] if case["kind"].startswith("inverse") else "domain"))
    for k in range(case["steps"]):
        u.after(net.step(m, case))
        s.step()
        s.check(m, u, f"after step {k + 1}")
    return dict(lab(case), nontrivial=s.moved > 1e-4 * case["lr"]["initial_learning_rate"])


@st.composite
def s_two(draw):
    k = draw(st.integers(3, 7))
    how = draw(st.sampled_from(["kind", "objects", "objects", "none"]))
    a = draw(s_train(steps=(1, 1)))
    if how == "objects" and draw(st.booleans()):
        a = draw(s_train(kinds=("inverse", "inverse_cd"), steps=(1, 1)))
    if how == "objects" and draw(st.booleans()):
        a["lr"].update(use_lr_scheduler=True, staircase=False)
    b = {"kind": dict(a, seed=a["seed"] + 1), "objects": dict(a, wseed=a["seed"] + 11)}.get(how) or draw(s_train(steps=(1, 1)))
    return {"a": a, "b": b, "how": how, "turns": draw(st.lists(st.integers(0, 1), min_size=k, max_size=k))}


def c_two(case, ctx):
    """Two models trained in turn are trained as if each was alone."""
    cs = [case["a"], case["b"]]
    ds = [net.problem(c) for c in cs]
    kw = {}
    ms = [net.make(cs[0], ds[0], keep=kw), net.make(cs[1], ds[1], reuse=kw if case["how"] == "objects" else None)]
    given = {k: list(kw[k]) if k == "layer_dims" else dict(kw[k]) for k in ("layer_dims", "learning_rate_dict", "params_dict")}
    ss = [Shadow(c, d) for c, d in zip(cs, ds)]
    us = [Unknown(dict(c, kind=c["kind"] if c["kind"].startswith("inverse") else "domain")) for c in cs]
    for k, i in enumerate(case["turns"]):
        us[i].after(net.step(ms[i], cs[i]))
        ss[i].step()
        for j in range(2):
            ss[j].check(ms[j], us[j], f"model {j} after turn {k + 1} (of model {i})")
    for k, v in given.items():
        need(kw[k] == v, lambda: f"{k} handed to the model is now {kw[k]}, it was {v}")
    return {"kinds": "/".join(sorted(c["kind"] for c in cs)), "shared": case["how"], "nontrivial": len(set(case["turns"])) == 2}


@st.composite
def s_use(draw):
    c = draw(s_train(steps=(3, 6)))
    c["between"] = draw(st.lists(st.sampled_from(["predict", "config", "new", "caller", "none"]), min_size=c["steps"], max_size=c["steps"]))
    c["first"] = draw(st.sampled_from(["none", "none", "caller", "predict"]))
    c["beta2"] = draw(st.sampled_from([0.0, 1.0, 10.0, 50.0]))
    return c


def own_use(kw):
    """The caller goes on using the lists and dictionaries it gave to the model."""
    for k, v in kw.items():
        if isinstance(v, list):
            v.reverse()
        elif isinstance(v, dict):
            for q, x in list(v.items()):
                v[q] = (not x) if isinstance(x, bool) else x * 3


def c_use(case, ctx):
    """Evaluating the model, asking for its configuration or creating another one does not disturb training; the penalty may change."""
    d = net.problem(case)
    kw = {}
    m = net.make(case, d, keep=kw)
    s, u = Shadow(case, d), Unknown(dict(case, kind=case["kind"] if case["kind"].startswith("inverse") else "domain"))
    for k, op in enumerate([case["first"]] + case["between"]):
        if k:
            beta = case["beta"] if k % 2 else case["beta2"]
            u.after(net.step(m, case, beta))
            s.step(beta=beta)
        with sut(op):
            if op == "caller":
                own_use(kw)
            elif op == "predict":
                m(net.tf_const(d["XD"], case))
            elif op == "config":
                m.get_config()
            elif op == "new":
                net.make(dict(case, seed=case["seed"] + 5), net.problem(dict(case, seed=case["seed"] + 5)))
        s.check(m, u, f"after step {k} and '{op}'")
    return dict(lab(case), nontrivial=s.moved > 1e-4 * case["lr"]["initial_learning_rate"])


@st.composite
def s_long(draw):
    c = draw(s_train(steps=(40, 240)))
    c["lr"]["decay_steps"] = draw(st.integers(1, 40))
    return c


def c_long(case, ctx):
    """Long trainings; weights are taken over from the model after every step, so that only single steps are compared."""
    d = net.problem(case)
    m = net.make(case, d)
    s, u = Shadow(case, d), Unknown(dict(case, kind=case["kind"] if case["kind"].startswith("inverse") else "domain"))
    for k in range(case["steps"]):
        s.lrsum = 0.0
        u.after(net.step(m, case))
        s.step()
        s.check(m, u, f"after step {k + 1}")
        s.W = net.get_weights(m, case)
        if s.eps is not None:
            s.eps = u.v
    return dict(lab(case), steps=case["steps"] // 50)


@st.composite
def s_det(draw):
    c = draw(s_train(steps=(2, 4)))
    c["dtype"] = draw(st.sampled_from(["float32", "float64"]))
    return c


def c_det(case, ctx):
    """The same data, weights and calls give the same training."""
    d = net.problem(case)
    out = []
    for _ in range(2):
        m = net.make(case, d)
        L = [net.step(m, case)["loss"] for _ in range(case["steps"])]
        out.append((L, net.get_weights(m, case)))
    t = 1e-12 if case["dtype"] == "float64" else 1e-5
    close(out[0][0], out[1][0], t * 10, "losses of two equal trainings", np.abs(out[0][0]) + 1e-6)
    for a, b in zip(out[0][1], out[1][1]):
        close(a, b, 1.0, "weights after two equal trainings", max(1e-3 * case["lr"]["initial_learning_rate"], 1e-12 if case["dtype"] == "float64" else 1e-6))
    return lab(case)


FACETS = [
    Facet("own-loss", s_own, c_train, 48, rule="as trajectory, with a nonlinear loss function of the user's own and 1-4 unknown constants or an unknown field"),
    Facet("trajectory", s_train, c_train, 176, rule="model x problem x learning rate 1e-6..0.1 x schedule (none, staircase default/on/off, decay every 1-3, 10..10000 steps by 0.01..1): weights and unknown coefficient after each of 2-6 steps against an own Adam on own gradients (float64); non-trivial: the weights move"),
    Facet("two-models", s_two, c_two, 56, rule="two models (also of the same kind, or created from the very same data objects) in turn, both compared after every step; non-trivial: both trained"),
    Facet("disturbance", s_use, c_use, 64, rule="predictions, configuration requests, new models, the caller changing its lists and dictionaries, between steps; alternating penalty"),
    Facet("long", s_long, c_long, 16, rule="40-240 steps, each compared with a step of the reference optimiser whose moments run along"),
    Facet("repeatable", s_det, c_det, 32, rule="the same training twice in one process"),
]
