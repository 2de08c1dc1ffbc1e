"""D01: Dirichlet data: every boundary point with the value its own boundary function has there."""
import numpy as np
from hypothesis import strategies as st

import build
import gen
from engine import Facet, arr, close, fail, need, sut

tag = st.one_of(st.integers(0, 5), st.integers(1000, 1003), st.integers(-5, 10**6))


@st.composite
def s_data(draw, vector=False):
    tags = draw(st.lists(tag, min_size=1, max_size=20 if draw(st.sampled_from([False] * 9 + [True])) else 5, unique=True))
    cols = draw(st.sampled_from([2, 2, 3]))
    bd = []
    for t in tags:
        if draw(st.integers(0, 11)) == 11:  # many points, from a seed
            pts = {"n": draw(st.integers(7, 400)), "seed": draw(st.integers(0, 10**6))}
        else:
            pts = [[draw(gen.frac(-5, 5)), draw(gen.frac(-5, 5))] for _ in range(draw(st.integers(1, 6)))]
        bd.append([t, pts, draw(gen.funcspec())])
    # the dictionary of functions may list the tags in another order
    return {
        "bd": bd,
        "cols": cols,
        "order": draw(st.permutations(range(len(tags)))),
        "extra": draw(st.booleans()),
        "ret": draw(st.sampled_from(["np", "float", "array1", "whole"])),
        "comp": draw(st.integers(0, 2)) if vector else 0,
        "npkey": draw(st.booleans()),
    }


M1 = {"nodes": [[0, 0], [1, 0], [1, 1], [0, 1]], "cells": [[0, 1, 2, 3]], "edges": []}
SP = {"fe": "legendre", "n": 2, "rule": "gauss-legendre", "q": 3, "trafo": "affine"}


def points(p):
    if isinstance(p, dict):
        return np.random.RandomState(p["seed"]).uniform(-5, 5, (p["n"], 2))
    return np.array(p, dtype=np.float64)


def setup(case, vector=False):
    bd, fs = {}, {}
    key = np.int64 if case["npkey"] else int
    for t, pts, spec in case["bd"]:
        p = points(pts)
        bd[key(t)] = p if case["cols"] == 2 else np.hstack([p, np.zeros((len(p), 1))])
    base = {t: gen.func(spec, 0.3, -0.2, 2.0) for t, _, spec in case["bd"]}

    def wrap(f):
        if case["ret"] == "whole":  # a function of one point, such as a norm of (x, y), which is not elementwise on arrays
            g = f
            f = lambda x, y: np.max(np.stack([g(x, y), g(x, y)]))
        if vector:
            # component k is f + k, so that mixing components up is seen
            return lambda x, y: [f(x, y) + k for k in range(3)]
        if case["ret"] == "float":
            return lambda x, y: float(f(x, y)) if np.ndim(x) == 0 else f(x, y)
        if case["ret"] == "array1":
            return lambda x, y: np.atleast_1d(f(x, y))
        return f

    for j in case["order"]:
        t = case["bd"][j][0]
        fs[t] = wrap(base[t])
    if case["extra"]:
        fs[10**7] = wrap(lambda x, y: 77.0 + 0 * x)
    return bd, fs, base


def pairs(x, y, what):
    with sut(what):
        X = np.array([np.asarray(p, dtype=np.float64) for p in x])
        Y = np.array([float(np.asarray(v).reshape(-1)[0]) if np.asarray(v).size == 1 else np.nan for v in y])
    need(X.ndim == 2 and X.shape[1] == 2, lambda: f"{what}: points of shape {X.shape}")
    need(len(X) == len(Y), f"{what}: {len(X)} points but {len(Y)} values")
    need(np.all(np.isfinite(Y)), f"{what}: a value is not a finite number")
    return X, Y


def expect(case, base, comp=0):
    return [(p[0], p[1], float(base[t](np.float64(p[0]), np.float64(p[1]))) + comp) for t, pts, _ in case["bd"] for p in points(pts)]


def compare(X, Y, ex, what):
    need(len(X) == len(ex), f"{what}: {len(X)} points, the boundary has {len(ex)}")
    a = sorted(zip(X[:, 0].tolist(), X[:, 1].tolist(), Y.tolist()))
    b = sorted(ex)
    # equal points with different values cannot be told apart by more than rounding
    for p, q in zip(a, b):
        if abs(p[0] - q[0]) > 1e-14 or abs(p[1] - q[1]) > 1e-14 or abs(p[2] - q[2]) > 1e-11 * (1 + abs(q[2])):
            fail(f"{what}: got point and value {p}, expected {q}")


def lab(case):
    return {"tags": min(len(case["bd"]), 8), "cols": case["cols"], "nontrivial": len(case["bd"]) > 1}


def c_scalar(case, ctx):
    bd, fs, base = setup(case)
    keep = {t: v.copy() for t, v in bd.items()}
    s = build.space(M1, SP, bd=bd, funcs=fs)
    ex = expect(case, base)
    for k in range(2):
        with sut("generate_dirichlet_boundary_data"):
            x, y = s.generate_dirichlet_boundary_data()
        compare(*pairs(x, y, "Dirichlet data"), ex, "Dirichlet data" + (" (second call)" if k else ""))
    need(s.total_dirichlet_dofs == len(ex), f"total_dirichlet_dofs is {s.total_dirichlet_dofs}, there are {len(ex)} points")
    need(list(bd) == list(keep) and all(np.array_equal(bd[t], keep[t]) for t in keep), "the boundary points were changed")
    return lab(case)


def c_vector(case, ctx):
    case = dict(case, ret="np")
    bd, fs, base = setup(case, vector=True)
    first = {t: (lambda f: lambda x, y: f(x, y)[0])(f) for t, f in fs.items()}
    s = build.space(M1, SP, bd=bd, funcs=first)
    s2 = None
    # the space itself evaluates scalar data when it is created, so vector data are set afterwards
    s.bound_function_dict = fs
    seq = [case["comp"], (case["comp"] + 1) % 3, case["comp"]]
    for k in seq:
        with sut(f"generate_dirichlet_boundary_data_vector({k})"):
            x, y = s.generate_dirichlet_boundary_data_vector(k)
        compare(*pairs(x, y, "Dirichlet data"), expect(case, base, k), f"Dirichlet data of component {k}")
    return lab(case)


@st.composite
def s_mesh(draw):
    m = draw(gen.mesh(3, 3))
    return {"mesh": m, "k": draw(st.integers(1, 4)), "fs": [draw(gen.funcspec(kinds=("poly", "trig", "const"))) for _ in range(4)]}


def c_mesh(case, ctx):
    """Boundary of a real mesh with one function per side: corner points belong to both sides."""
    m = case["mesh"]
    bd = build.boundary(m, case["k"])
    fr = gen.mesh_scale(m)
    fs = {t: gen.func(case["fs"][t], *fr) for t in bd}
    s = build.space(m, dict(SP, trafo="bilinear"), bd=bd, funcs=fs)
    with sut("generate_dirichlet_boundary_data"):
        X, Y = pairs(*s.generate_dirichlet_boundary_data(), "Dirichlet data")
    ex = [(p[0], p[1], float(fs[t](p[0], p[1]))) for t in bd for p in bd[t]]
    compare(X, Y, ex, "Dirichlet data")
    return {"k": case["k"], "mesh": m["kind"]}


FACETS = [
    Facet("scalar", s_data, c_scalar, 1600, rule="1-20 tags of any value and order, functions listed in another order, 2 or 3 coordinates per point, several return types; non-trivial: several tags"),
    Facet("vector", lambda: s_data(vector=True), c_vector, 800, rule="components of vector valued data in changing order; non-trivial: several tags"),
    Facet("mesh-boundary", s_mesh, c_mesh, 480, rule="boundaries of generated meshes, a function per side"),
]
