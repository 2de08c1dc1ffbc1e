"""H02: sensor data and conversion of parameters."""
import os

import numpy as np
from hypothesis import strategies as st

import build
import gen
from engine import Facet, arr, close, fail, need, sut
from props.h01 import Domain, handler, tensor

SP = {"fe": "legendre", "n": 2, "rule": "gauss-legendre", "q": 3, "trafo": "bilinear"}


@st.composite
def s_internal(draw):
    m = draw(gen.mesh(2, 2))
    return {
        "mesh": m,
        "n": draw(gen.few(st.one_of(st.integers(2, 40), st.integers(41, 300)), st.integers(301, 4000))),
        "f": draw(gen.funcspec(kinds=("poly", "trig"))),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "col": draw(st.booleans()),
        "calls": draw(st.integers(1, 2)),
    }


def c_internal(case, ctx):
    m, dt = case["mesh"], case["dtype"]
    N = np.array(m["nodes"])
    lo, hi = N.min(0), N.max(0)
    f = gen.func(case["f"], *gen.mesh_scale(m))
    s = build.space(m, SP)
    d = handler(s, Domain(N), dt)
    exact = (lambda x, y: f(x, y).reshape(-1, 1)) if case["col"] else f
    import matplotlib.pyplot as plt

    last = None
    for _ in range(case["calls"]):
        with sut("get_sensor_data"):
            p, v = d.get_sensor_data(exact, case["n"], mesh_type="internal")
        plt.close("all")
        n = int(p.shape[0])
        need(int(0.9 * case["n"]) <= n <= case["n"], f"{n} sensor points for {case['n']} asked for")
        P = tensor(p, (n, 2), dt, "sensor points")
        V = tensor(v, (n, 1), dt, "sensor values")[:, 0]
        e = (1e-12 if dt == "float64" else 3e-7) * (np.abs(N).max() + np.ptp(N))
        need(np.all(P >= lo - e) and np.all(P <= hi + e), "a sensor point lies outside the bounding box of the mesh")
        if n >= 8:
            need(np.all(np.ptp(P, axis=0) >= 0.5 * (hi - lo) - e), "the sensor points do not spread over the domain")
        G = np.hypot(*[np.abs(f(P[:, 0] + a, P[:, 1] + b) - f(P[:, 0], P[:, 1])) for a, b in ((e, 0), (0, e))])
        F = f(P[:, 0], P[:, 1])
        close(V, F, 1.0, "sensor values against the exact solution at the sensor points", 4 * G + (1e-11 if dt == "float64" else 1e-6) * (1 + np.abs(F).max()))
        last = P
    return {"dtype": dt, "n": "small" if case["n"] <= 40 else "large", "nontrivial": n > 1}


@st.composite
def s_external(draw):
    if draw(st.integers(0, 7)) == 7:  # a long file, from a seed
        rows = {"n": draw(st.integers(31, 2000)), "seed": draw(st.integers(0, 10**6))}
    else:
        rows = [[draw(gen.frac(-5, 5)), draw(gen.frac(-5, 5)), draw(gen.frac(-50, 50))] for _ in range(draw(st.integers(1, 30)))]
    return {
        "rows": rows,
        "n": draw(gen.few(st.integers(1, 60), st.integers(61, 3000))),
        "head": draw(st.sampled_from([["x", "y", "u"], ["Points:0", "Points:1", "Sol"], ["a", "b", "c", "d"], ["u", "x", "y"]])),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "mixed": draw(st.booleans()),
    }


M1 = {"nodes": [[0, 0], [1, 0], [1, 1], [0, 1]], "cells": [[0, 1, 2, 3]], "edges": [[0, 1, 0]], "kind": "uniform"}


def c_external(case, ctx):
    dt = case["dtype"]
    f = os.path.join(ctx.tmp(), "data.csv")
    R = case["rows"]
    R = np.random.RandomState(R["seed"]).uniform(-5, 5, (R["n"], 3)) if isinstance(R, dict) else np.array(R)
    extra = len(case["head"]) - 3
    with open(f, "w") as fh:
        fh.write(",".join(case["head"]) + "\n")
        for r in R.tolist():
            fh.write(",".join(repr(x) for x in r + [99.0] * extra) + "\n")
    text = open(f).read()
    d = handler(build.space(M1, SP), Domain(R), dt)
    with sut("get_sensor_data"):
        p, v = d.get_sensor_data(lambda x, y: 0 * x + 1e6, case["n"], mesh_type="external", file_name=f)
    P = tensor(p, (case["n"], 2), dt, "sensor points")
    V = tensor(v, (case["n"], 1), dt, "sensor values")
    got = np.hstack([P, V])
    e = 1e-13 if dt == "float64" else 1e-6
    for row in got:
        need(np.any(np.all(np.abs(R - row) <= e * (1 + np.abs(R)), axis=1)), lambda: f"sensor {row.tolist()} is not a row of the file")
    if len(np.unique(R, axis=0)) == len(R) >= 10 and case["n"] >= 20:
        need(len(np.unique(got, axis=0)) > 1, "every sensor is the same row of the file")
    need(open(f).read() == text, "the file was changed")
    return {"dtype": dt, "rows": min(len(R), 10), "nontrivial": len(R) > 1 and case["n"] > 1}


num = st.one_of(st.integers(-1000, 1000), gen.frac(-10, 10), st.sampled_from([1e-12, 3.3e9, -1 / 3]))


@st.composite
def s_params(draw):
    keys = draw(st.lists(st.sampled_from(["eps", "b_x", "b_y", "c", "k", "alpha"]), min_size=1, max_size=6, unique=True))
    return {
        "items": [[k, draw(num)] for k in keys],
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "calls": draw(st.lists(st.sampled_from(["bilinear", "inverse"]), min_size=1, max_size=4)),
        "shared": draw(st.booleans()),
        "vary": draw(st.booleans()),
    }


def c_params(case, ctx):
    import tensorflow as tf

    dt = case["dtype"]
    d = handler(build.space(M1, SP), Domain(np.zeros((1, 2))), dt)
    user = dict(case["items"])
    fn = (lambda: user) if case["shared"] else (lambda: dict(items))
    for j, op in enumerate(case["calls"]):
        # the problem's values may have changed since the last conversion
        items = [[k, v + (j if case["vary"] else 0)] for k, v in case["items"]]
        user.update(dict(items))
        name = "get_bilinear_params_dict_as_tensors" if op == "bilinear" else "get_inverse_params"
        with sut(name):
            r = getattr(d, name)(fn)
        need(list(r) == [k for k, _ in items] or sorted(r) == sorted(user), lambda: f"{name}: parameters {sorted(r)}")
        for k, v in items:
            need(tf.is_tensor(r[k]), f"{name}: {k} is not a tensor")
            t = tensor(r[k], (), dt, f"{name}: {k}")
            close(t, v, 1e-15 if dt == "float64" else 1.2e-7, f"{name}: {k}", abs(v) + 1e-300)
        need(user == dict(items) and not any(tf.is_tensor(x) for x in user.values()), f"{name} changed the user's dictionary")
    return {"dtype": dt, "nontrivial": len(case["items"]) > 1 or len(case["calls"]) > 1}


FACETS = [
    Facet("sensors-internal", s_internal, c_internal, 160, rule="2-300 sensors on generated meshes: number, bounding box, spread, exact values at the returned points"),
    Facet("sensors-file", s_external, c_external, 800, rule="CSV files of 1-30 rows, 1-60 sensors: every sensor is a row of the file; non-trivial: several rows and sensors"),
    Facet("parameters", s_params, c_params, 800, rule="dictionaries of parameters, converted 1-4 times, shared or fresh, with the same or with changed values; non-trivial: several parameters or calls"),
]
