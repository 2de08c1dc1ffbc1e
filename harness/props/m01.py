"""M01: the losses reported by a training step of the forward models."""
import numpy as np
from hypothesis import strategies as st

import gen
import net
from engine import Facet, arr, close, need, sut

KINDS = ["dense", "hard"]


def compare(case, got, ref, what):
    out, sc = ref
    for k in out:
        close(got[k], out[k], net.tolerance(case), f"{what}: {k}", sc[k] + 1e-300)


def lab(case):
    return {"kind": case["kind"], "pb": case["pb"], "dtype": case["dtype"], "layers": len(case["hid"]), "odd": "far" if "far" in case else "out" if "out" in case else "", "nontrivial": len(case["hid"]) > 0 and case["n"][0] * case["n"][2] > 1}


def c_step(case, ctx):
    """Every step reports the losses at the weights it starts from."""
    d = net.problem(case)
    m = net.make(case, d)
    for k in range(case["steps"]):
        W = net.get_weights(m, case)
        compare(case, net.step(m, case), net.reference(case, d, W), f"step {k + 1}")
    return lab(case)


@st.composite
def s_large(draw, kinds=tuple(KINDS)):
    """Many cells, test functions, quadrature, boundary or sensor points."""
    c = draw(net.s_model(kinds, odd=True))
    c["n"] = [min(k, 4) for k in c["n"]]
    c["nd"], c["ns"] = min(c["nd"], 5), min(c["ns"], 5)
    k = draw(st.integers(0, 4))
    big = draw(st.integers(80, (3000, 1000, 3000, 20000, 20000)[k]))
    if k < 3:
        c["n"][k] = big
    else:
        c["nd" if k == 3 or c["kind"] in KINDS else "ns"] = big
    return c


@st.composite
def s_vary(draw, kinds=tuple(KINDS)):
    c = draw(net.s_model(kinds, odd=True))
    k = draw(st.integers(2, 4))
    c["calls"] = [
        {"beta": draw(st.sampled_from([0.0, 1.0, 10.0, 33.0])), "p": {q: draw(gen.coef()) for q in ("eps", "b_x", "b_y", "c", "k")}, "w": draw(st.one_of(st.none(), st.integers(0, 10**6)))}
        for _ in range(k)
    ]
    return c


def c_vary(case, ctx):
    """Penalty, equation parameters and weights may change between steps; each step uses the current ones."""
    d = net.problem(case)
    m = net.make(case, d)
    for k, call in enumerate(case["calls"]):
        if call["w"] is not None:
            net.put_weights(m, case, net.weights(net.dims(case), call["w"]))
        W = net.get_weights(m, case)
        compare(case, net.step(m, case, call["beta"], call["p"]), net.reference(case, d, W, p=call["p"], beta=call["beta"]), f"call {k + 1}")
    return lab(case)


@st.composite
def s_two(draw, kinds=tuple(KINDS)):
    return {"a": draw(net.s_model(kinds)), "b": draw(net.s_model(kinds)), "turns": draw(st.lists(st.integers(0, 1), min_size=2, max_size=5))}


def c_two(case, ctx):
    """Models of different problems, shapes and precisions trained in turn."""
    cs = [case["a"], case["b"]]
    ds = [net.problem(c) for c in cs]
    ms = [net.make(c, d) for c, d in zip(cs, ds)]
    for i in case["turns"]:
        W = net.get_weights(ms[i], cs[i])
        compare(cs[i], net.step(ms[i], cs[i]), net.reference(cs[i], ds[i], W), f"model {i}")
    return {"kinds": "/".join(sorted(c["kind"] for c in cs)), "nontrivial": len(set(case["turns"])) == 2}


FACETS = [
    Facet("losses", lambda: net.s_model(KINDS, odd=True), c_step, 240, rule="model x problem x network (0-3 hidden layers, 7 activations) x random tensors, weights, parameters, penalty, precision; domains of size 1e-3..1e5 and data with single values up to 1e6, 1-3 steps against a numpy network with exact derivatives and explicit sums; non-trivial: hidden layers and several points"),
    Facet("own-loss", lambda: net.s_own(KINDS, odd=True), c_step, 64, rule="as losses, with a nonlinear loss function of the user's own (plain, tf.function, partial, object)"),
    Facet("large", s_large, c_step, 24, rule="as losses, up to 3000 cells or quadrature points in a cell, 1000 test functions, 20000 boundary points"),
    Facet("changing-arguments", s_vary, c_vary, 120, rule="2-4 steps with changing penalty, parameters and weights"),
    Facet("two-models", s_two, c_two, 64, rule="two models trained in turn; non-trivial: both used"),
]
