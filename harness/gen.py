"""Strategies.  All of them produce JSON-able values by construction (hardly any rejection)."""
import math

import numpy as np
from hypothesis import strategies as st

import ref


def frac(lo, hi, den=1000):
    """A float k/den between lo and hi (shrinks towards 0), in one of six cases with all its digits in use."""
    a, b = int(math.ceil(lo * den)), int(math.floor(hi * den))
    usual = st.integers(a, b).map(lambda k: k / den)
    if b - a < 10:
        return usual
    return few(usual, st.tuples(st.integers(a, b - 1), st.integers(0, 2**40 - 1)).map(lambda t: (t[0] + t[1] / 2**40) / den), 6)


def coef(big=False):
    """A coefficient: zero, unit, ordinary or of extreme magnitude."""
    o = [st.sampled_from([0.0, 1.0, -1.0]), frac(-5, 5)]
    if big:
        o.append(st.tuples(frac(-5, 5), st.integers(-4, 4)).map(lambda t: t[0] * 10.0 ** t[1]))
    return st.one_of(o)


def few(usual, rare, k=10):
    """Mostly from the first strategy, in about one of k cases from the second."""
    return st.integers(0, k - 1).flatmap(lambda i: rare if i == k - 1 else usual)


@st.composite
def poly(draw, deg, cx=0.0, cy=0.0, h=1.0, min_terms=1, max_terms=5):
    terms = draw(
        st.lists(
            st.tuples(st.integers(0, deg), st.integers(0, deg), frac(-3, 3)).filter(lambda t: t[0] + t[1] <= deg),
            min_size=min_terms,
            max_size=max_terms,
        )
    )
    return {"cx": cx, "cy": cy, "h": h, "terms": [list(t) for t in terms]}


# size of the perturbation which makes a quadrilateral general: sometimes hardly visible
BEND = [1.0, 1.0, 1.0, 1.0, 1.0, 1e-2, 1e-4, 1e-7]

SCALES = [1.0, 1.0, 1.0, 1.0, 0.1, 1e-3, 7.0, 1e3, 1e-6, 1e5]


@st.composite
def frame(draw, wild=True):
    """A linear frame: size, aspect ratio, rotation angle, shear and an offset."""
    s = draw(st.sampled_from(SCALES)) if wild else 1.0
    asp = draw(st.sampled_from([1.0, 1.0, 1.0, 2.0, 2.0, 0.5, 0.5, 10.0, 0.05, 300.0, 0.002])) if wild else draw(st.sampled_from([1.0, 1.5, 0.6]))
    ang = draw(st.sampled_from([0, 0, 0, 90, 180, 270, 30, 45, 137, 211, 333]))
    shear = draw(st.sampled_from([0.0, 0.0, 0.5, -0.8]))
    ox = draw(st.integers(-40, 40)) / 8 * s
    oy = draw(st.integers(-40, 40)) / 8 * s
    if wild and draw(st.integers(0, 11)) == 11:  # small compared with its distance from the origin
        ox, oy = ox * 200, oy * 200
    return {"s": s, "asp": asp, "ang": ang, "shear": shear, "ox": ox, "oy": oy}


def apply_frame(fr, p):
    p = np.asarray(p, dtype=np.float64)
    x = p[..., 0] + fr["shear"] * p[..., 1]
    y = p[..., 1] * fr["asp"]
    k = fr["ang"] % 360
    c, s = {0: (1.0, 0.0), 90: (0.0, 1.0), 180: (-1.0, 0.0), 270: (0.0, -1.0)}.get(
        k, (math.cos(math.radians(k)), math.sin(math.radians(k)))
    )
    X = (c * x - s * y) * fr["s"] + fr["ox"]
    Y = (s * x + c * y) * fr["s"] + fr["oy"]
    return np.stack([X, Y], -1)


@st.composite
def quad(draw, kinds=("rect", "para", "general"), orient=True, wild=True, slender=0):
    """One convex quadrilateral as 4 vertices; one of so many (slender) is very long and thin."""
    kind = draw(st.sampled_from(list(kinds)))
    fr = draw(frame(wild))
    if slender and draw(st.integers(1, slender)) == slender:
        fr["asp"] = draw(st.sampled_from([1e4, 1e-4, 1e5, 1e-5, 1e6, 1e-6]))
    if kind == "rect":
        fr["shear"] = 0.0
        fr["ang"] = draw(st.sampled_from([0, 90, 180, 270]))
    p = np.array([[-1.0, -1], [1, -1], [1, 1], [-1, 1]])
    if kind == "general":
        d = draw(st.lists(st.integers(-9, 9), min_size=8, max_size=8))
        p = p + 2 * np.array(d).reshape(4, 2) / 50.0 * draw(st.sampled_from(BEND))
    v = apply_frame(fr, p)
    k = draw(st.integers(0, 3))
    v = np.roll(v, k, axis=0)
    cw = orient and draw(st.sampled_from([False, False, True]))
    if cw:
        v = v[::-1]
    return {"kind": kind, "v": v.tolist(), "cw": cw}


@st.composite
def mesh(draw, max_x=3, max_y=3, kinds=("uniform", "para", "general"), orient=True, wild=True, shuffle=True, exact=False):
    """A conforming mesh of convex quadrilaterals: node coordinates, cells (node indices) and boundary edges."""
    kind = draw(st.sampled_from(list(kinds)))
    nx = max_x if exact else draw(few(st.integers(1, max_x), st.integers(max_x + 1, 5 * max_x), 15))
    ny = max_y if exact else draw(st.integers(1, max_y))
    fr = draw(frame(wild))
    if kind == "uniform":
        fr["shear"] = 0.0
        fr["ang"] = draw(st.sampled_from([0, 90, 180, 270]))
    hx = [draw(st.integers(2, 6)) / 4 for _ in range(nx)] if kind != "uniform" else [1.0] * nx
    hy = [draw(st.integers(2, 6)) / 4 for _ in range(ny)] if kind != "uniform" else [1.0] * ny
    X = np.concatenate([[0], np.cumsum(hx)])
    Y = np.concatenate([[0], np.cumsum(hy)])
    P = np.stack(np.meshgrid(X, Y, indexing="ij"), -1)  # (nx+1, ny+1, 2)
    if kind == "general":
        d = draw(st.lists(st.integers(-8, 8), min_size=2 * P.shape[0] * P.shape[1], max_size=2 * P.shape[0] * P.shape[1]))
        P = P + 0.5 * np.array(d).reshape(P.shape) / 50.0 * draw(st.sampled_from(BEND))  # smallest step is 0.5
    if kind == "general" and shuffle and draw(st.integers(0, 7)) == 7:
        # part of a ring: congruent cells which are turned against each other
        fr = dict(fr, asp=1.0, shear=0.0)
        step = draw(st.sampled_from([0.2, 0.5, 0.9])) * min(1.0, 6.0 / (0.9 * nx))
        I, J = np.meshgrid(np.arange(nx + 1), np.arange(ny + 1), indexing="ij")
        R = draw(st.sampled_from([1.0, 2.5])) + J * draw(st.sampled_from([0.5, 1.0]))
        P = np.stack([R * np.sin(step * I), R * np.cos(step * I)], -1)
    P = apply_frame(fr, P)
    idx = np.arange((nx + 1) * (ny + 1)).reshape(nx + 1, ny + 1)
    cells = []
    for i in range(nx):
        for j in range(ny):
            cells.append([int(idx[i, j]), int(idx[i + 1, j]), int(idx[i + 1, j + 1]), int(idx[i, j + 1])])
    edges = []
    for i in range(nx):
        edges.append([int(idx[i, 0]), int(idx[i + 1, 0]), 0])
    for j in range(ny):
        edges.append([int(idx[nx, j]), int(idx[nx, j + 1]), 1])
    for i in reversed(range(nx)):
        edges.append([int(idx[i + 1, ny]), int(idx[i, ny]), 2])
    for j in reversed(range(ny)):
        edges.append([int(idx[0, j + 1]), int(idx[0, j]), 3])
    if shuffle and len(cells) > 1 and draw(st.booleans()):
        cells = draw(st.permutations(cells))
    if shuffle:
        out = []
        rot = draw(st.lists(st.integers(0, 3), min_size=len(cells), max_size=len(cells)))
        for c, r in zip(cells, rot):
            out.append(c[r:] + c[:r])
        cells = out
    if orient and draw(st.sampled_from([False, False, False, True])):
        cells = [c[::-1] for c in cells]
    return {"kind": kind, "nodes": P.reshape(-1, 2).tolist(), "cells": [list(c) for c in cells], "edges": edges, "nx": nx, "ny": ny}


def many_cells(wild=True):
    """A mesh of 64-300 cells."""
    return st.tuples(st.integers(8, 20), st.integers(8, 15)).flatmap(lambda t: mesh(t[0], t[1], exact=True, wild=wild))


def cell_coords(m):
    n = np.array(m["nodes"], dtype=np.float64)
    return n[np.array(m["cells"], dtype=int)]


def mesh_scale(m):
    """Centre and half size of the mesh, for scaled polynomials."""
    n = np.array(m["nodes"])
    lo, hi = n.min(0), n.max(0)
    return float((lo[0] + hi[0]) / 2), float((lo[1] + hi[1]) / 2), float(max(hi - lo) / 2)


@st.composite
def funcspec(draw, deg=3, kinds=("poly", "trig", "const", "step")):
    """A scalar function of (x, y) relative to a mesh's centre and size (those are filled in later)."""
    k = draw(st.sampled_from(list(kinds)))
    if k == "poly":
        return {"k": k, "terms": draw(poly(deg))["terms"]}
    if k == "const":
        return {"k": k, "c": draw(frac(-5, 5))}
    return {"k": k, "a": draw(frac(-4, 4)), "b": draw(frac(-4, 4)), "c": draw(frac(-2, 2)), "m": draw(frac(-5, 5))}


def func(spec, cx, cy, h):
    k = spec["k"]
    if k == "poly":
        return ref.Poly({"cx": cx, "cy": cy, "h": h, "terms": spec["terms"]})
    if k == "const":
        return lambda x, y: spec["c"] + 0.0 * x
    if k == "trig":
        return lambda x, y: spec["m"] * np.sin(spec["a"] * (x - cx) / h + spec["c"]) * np.cos(spec["b"] * (y - cy) / h)
    if k == "step":
        return lambda x, y: np.where(spec["a"] * (x - cx) / h + spec["b"] * (y - cy) / h > spec["c"] + 1e-3 * math.pi, spec["m"], -1.0 + 0 * x)
    raise KeyError(k)


@st.composite
def fespec(draw, kind, max_n=5, max_q=6, fams=ref.FAMILIES, min_q=3):
    """Finite element settings; the affine map only for cells which are parallelograms."""
    return {
        "fe": draw(st.sampled_from(list(fams))),
        "n": draw(st.integers(2, max_n)),
        "rule": draw(st.sampled_from(["gauss-legendre", "gauss-jacobi"])),
        "q": draw(st.integers(min_q, max_q)),
        "trafo": "bilinear" if kind == "general" else draw(st.sampled_from(["affine", "bilinear"])),
    }


@st.composite
def big_medit(draw, lo=40, hi=130):
    """As medit, for meshes too large to be drawn number by number: big_mesh makes them from a seed."""
    return {
        "grid": [draw(st.integers(lo, hi)), draw(st.integers(lo, hi)), draw(st.integers(0, 10**6))],
        "opt": {
            "dim": draw(st.sampled_from([3, 2])),
            "order": draw(st.sampled_from(["VEQ", "VQE"])),
            "oneline": False,
            "vref": 0,
            "cref": 0,
            "comment": False,
        },
    }


def big_mesh(grid):
    nx, ny, seed = grid
    r = np.random.RandomState(seed)
    P = np.stack(np.meshgrid(np.arange(nx + 1.0), np.arange(ny + 1.0), indexing="ij"), -1)
    P = (P + r.uniform(-0.15, 0.15, P.shape)).reshape(-1, 2) * r.uniform(0.1, 2, 2) + r.uniform(-3, 3, 2)
    perm = r.permutation(len(P)) if r.rand() < 0.5 else np.arange(len(P))
    I = perm.reshape(nx + 1, ny + 1)  # place in the grid -> number of the node
    nodes = np.empty_like(P)
    nodes[perm] = P
    cells = np.stack([I[:-1, :-1], I[1:, :-1], I[1:, 1:], I[:-1, 1:]], -1).reshape(-1, 4)
    if r.rand() < 0.5:
        cells = cells[r.permutation(len(cells))]
    sides = [I[:, 0], I[-1, :], I[:, -1], I[0, :]]
    tags = r.choice(np.arange(1, 2000), 4, replace=False)
    edges = [[int(a), int(b), int(t)] for s, t in zip(sides, tags) for a, b in zip(s[:-1], s[1:])]
    r.shuffle(edges)
    return {"nodes": nodes.tolist(), "cells": cells.tolist(), "edges": edges, "kind": "general"}


@st.composite
def medit(draw, max_x=3, max_y=3, wild=True):
    """A mesh together with the details of how it is written to a Medit file."""
    m = draw(mesh(max_x, max_y, wild=wild))
    if draw(st.integers(0, 5)) == 5:  # vertices which belong to no cell (inside the domain's extent)
        P = m["nodes"]
        m["nodes"] = P + [[(P[i % len(P)][k] + P[j % len(P)][k]) / 2 for k in (0, 1)] for i, j in draw(st.lists(st.tuples(st.integers(0, 15), st.integers(0, 15)), min_size=1, max_size=4))]
    n = len(m["nodes"])
    perm = draw(st.permutations(range(n))) if draw(st.booleans()) else list(range(n))
    inv = [0] * n
    for new, old in enumerate(perm):
        inv[old] = new
    nodes = [m["nodes"][old] for old in perm]
    cells = [[inv[k] for k in c] for c in m["cells"]]
    tags = draw(st.lists(st.one_of(st.integers(1, 6), st.integers(1000, 1003), st.integers(0, 10**6)), min_size=4, max_size=4))
    split = draw(st.booleans())  # tags per edge instead of per side
    edges = []
    for k, (a, b, t) in enumerate(m["edges"]):
        e = [inv[a], inv[b], tags[k % 4 if split else t]]
        edges.append(e)
    if draw(st.booleans()):
        edges = draw(st.permutations(edges))
    flip = draw(st.lists(st.booleans(), min_size=len(edges), max_size=len(edges)))
    edges = [[b, a, t] if f else [a, b, t] for (a, b, t), f in zip(edges, flip)]
    opt = {
        "dim": draw(st.sampled_from([3, 3, 3, 2])),
        "order": draw(st.sampled_from(["VEQ", "VQE", "VEQ", "VQE", "EQV", "QVE"])),
        "oneline": draw(st.booleans()),
        "vref": draw(st.sampled_from([0, 7, -1])),
        "cref": draw(st.sampled_from([0, 3, -1])),
        "comment": draw(st.booleans()),
    }
    return {"mesh": {"nodes": nodes, "cells": cells, "edges": [list(e) for e in edges], "kind": m["kind"]}, "opt": opt}
