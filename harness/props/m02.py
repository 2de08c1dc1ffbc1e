"""M02: the losses reported by a training step of the inverse models, and the unknown coefficient they use."""
import numpy as np
from hypothesis import strategies as st

import gen
import net
from engine import Facet, arr, close, need, sut
from props import m01
from props.m01 import compare, lab

KINDS = ["inverse", "inverse_cd", "domain"]


class Unknown:
    """Current value of the unknown constant, as reported by the model's own steps."""

    def __init__(self, case):
        self.case = case
        self.many = "unk" in case  # then all values by name
        v = {k: float(np.dtype(case["dtype"]).type(case["p"][k])) for k in net.unknowns(case)}
        self.v = v if self.many else v.get("eps")

    def after(self, out):
        if self.case["kind"] == "domain":
            return
        r = out["raw"]
        names = net.unknowns(self.case)
        need("inverse_params" in r and set(names) <= set(r["inverse_params"]), "the step does not report the unknown parameters")
        v = {k: float(arr(r["inverse_params"][k], (), "reported parameter")) for k in names}
        self.v = v if self.many else v["eps"]


def c_step(case, ctx):
    d = net.problem(case)
    m = net.make(case, d)
    u = Unknown(case)
    for k in range(case["steps"]):
        W = net.get_weights(m, case)
        out = net.step(m, case)
        compare(case, out, net.reference(case, d, W, eps=u.v), f"step {k + 1}")
        u.after(out)
    return lab(case)


def c_vary(case, ctx):
    d = net.problem(case)
    m = net.make(case, d)
    u = Unknown(case)
    for k, call in enumerate(case["calls"]):
        if call["w"] is not None:
            net.put_weights(m, case, net.weights(net.dims(case), call["w"]))
        W = net.get_weights(m, case)
        # the known parameters come from the call; a value of the unknown among them must not matter
        out = net.step(m, case, call["beta"], call["p"])
        compare(case, out, net.reference(case, d, W, eps=u.v, p=call["p"], beta=call["beta"]), f"call {k + 1}")
        u.after(out)
    return lab(case)


def c_two(case, ctx):
    cs = [case["a"], case["b"]]
    ds = [net.problem(c) for c in cs]
    ms = [net.make(c, d) for c, d in zip(cs, ds)]
    us = [Unknown(c) for c in cs]
    for i in case["turns"]:
        W = net.get_weights(ms[i], cs[i])
        out = net.step(ms[i], cs[i])
        compare(cs[i], out, net.reference(cs[i], ds[i], W, eps=us[i].v), f"model {i}")
        us[i].after(out)
    return {"kinds": "/".join(sorted(c["kind"] for c in cs)), "nontrivial": len(set(case["turns"])) == 2}


FACETS = [
    Facet("losses", lambda: net.s_model(KINDS, odd=True), c_step, 240, rule="constant (Poisson, convection-diffusion) and field unknowns x network x random tensors, sensors, weights, parameters, precision, domains of size 1e-3..1e5 and data with single values up to 1e6; 1-3 steps against a numpy network and explicit sums; non-trivial: hidden layers and several points"),
    Facet("own-loss", lambda: net.s_own(KINDS, odd=True), c_step, 96, rule="as losses, with a nonlinear loss function of the user's own (plain, tf.function, partial, object) and 1-4 unknown constants or an unknown field"),
    Facet("large", lambda: m01.s_large(tuple(KINDS)), c_step, 24, rule="as losses, up to 3000 cells or quadrature points in a cell, 1000 test functions, 20000 boundary or sensor points"),
    Facet("changing-arguments", lambda: m01.s_vary(tuple(KINDS)), c_vary, 120, rule="2-4 steps with changing penalty, known parameters and weights"),
    Facet("two-models", lambda: m01.s_two(tuple(KINDS)), c_two, 64, rule="two models trained in turn; non-trivial: both used"),
]
