"""A01: the assembled per-cell matrices, quadrature points and weights of a finite element space."""
import math

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from engine import Facet, arr, close, need, sut


@st.composite
def s_space(draw, max_x=3, max_y=3, max_n=5, max_q=6, kinds=("uniform", "para", "general"), fams=ref.FAMILIES):
    m = draw(gen.mesh(max_x, max_y, kinds))
    return {"mesh": m, "sp": draw(gen.fespec(m["kind"], max_n, max_q, fams))}


def lab(case):
    return {
        "mesh": case["mesh"]["kind"],
        "fe": case["sp"]["fe"],
        "trafo": case["sp"]["trafo"],
        "rule": case["sp"]["rule"],
        "cells": min(len(case["mesh"]["cells"]), 4),
        "nontrivial": len(case["mesh"]["cells"]) > 1 or case["sp"]["n"] > 2,
    }


ACC = {
    "val": "get_shape_function_val",
    "gx": "get_shape_function_grad_x",
    "gy": "get_shape_function_grad_y",
    "gx_ref": "get_shape_function_grad_x_ref",
    "gy_ref": "get_shape_function_grad_y_ref",
}


def get(s, what, i, shape):
    name = {"pts": "get_quadrature_actual_coordinates", "w": "get_quadrature_weights", **ACC}[what]
    with sut(f"{name}({i})"):
        a = getattr(s, name)(i)
    return arr(a, shape, f"{name}({i})")


def c_tensors(case, ctx):
    m, sp = case["mesh"], case["sp"]
    C = gen.cell_coords(m)
    C0 = C.copy()
    s = build.space(m, sp, coords=C)
    nt, nq = sp["n"] ** 2, sp["q"] ** 2
    need(s.n_cells == len(C), f"n_cells is {s.n_cells} for {len(C)} cells")
    need(s.total_dofs == len(C) * nq, f"total_dofs is {s.total_dofs} for {len(C)} cells with {nq} quadrature points")
    tot = 0.0
    for i, v in enumerate(C):
        r = build.RefCell(v, sp)
        idx = r.order(get(s, "pts", i, (nq, 2)))
        w = get(s, "w", i, None).reshape(-1)
        far = 1 + 1e-2 * r.far / r.size
        close(w, r.mult[idx], 1e-11 * far, f"cell {i}: weights", r.w.max() * r.size**2)
        tot += w.sum()
        for what in ACC:
            got = get(s, what, i, (nt, nq))
            if what.endswith("_ref"):
                close(got, getattr(r, what)[:, idx], 1e-9, f"cell {i}: {what}", getattr(r, what + "_scale"))
            else:
                sc = r.phi_scale * r.w.max() * r.size**2 if what == "val" else r.g_scale
                close(got, getattr(r, what)[:, idx], 1e-9 * far, f"cell {i}: {what}", sc)
    A = sum(abs(ref.area(v)) for v in C)
    close(tot, A, 1e-10 * (1 + np.abs(C).max() / np.ptp(C)), "sum of all weights against the area of the domain")
    need(np.array_equal(C, C0), "the cell coordinates were changed")
    return lab(case)


@st.composite
def s_ident(draw):
    c = draw(s_space(max_x=2, max_y=2, max_n=4, fams=ref.FAMILIES))
    n = c["sp"]["n"]
    # enough points for the products below: degree n+1 (test) + 2*3+1
    c["sp"]["q"] = draw(st.integers((n + 10) // 2 + 1, (n + 10) // 2 + 3))
    c["poly"] = draw(gen.poly(3))["terms"]
    return c


def edges_flux(v, g, sp, n):
    """Integral over the cell boundary of phi_i * g * normal, for all test functions."""
    t, w = np.polynomial.legendre.leggauss(n + 6)
    o = np.sign(ref.area(v))
    out = np.zeros((2, n * n))
    for a, b in zip(ref.N4, ref.N4[1:] + ref.N4[:1]):
        xi = (a[0] * (1 - t) + b[0] * (1 + t)) / 2
        eta = (a[1] * (1 - t) + b[1] * (1 + t)) / 2
        x, y = ref.qmap(v, xi, eta)
        k, l = ref.N4.index(a), ref.N4.index(b)
        e = (v[l] - v[k]) / 2
        nx, ny = o * e[1], -o * e[0]
        phi, _ = ref.basis2d(sp["fe"], n, xi, eta, "value")
        f = (phi * (g(x, y) * w)).sum(1)
        out[0] += f * nx
        out[1] += f * ny
    return out


def c_ident(case, ctx):
    """Integration by parts: int g d(phi)/dx = -int dg/dx phi + boundary terms, with the assembled matrices only."""
    m, sp = case["mesh"], case["sp"]
    C = gen.cell_coords(m)
    s = build.space(m, sp, coords=C)
    cx, cy, h = gen.mesh_scale(m)
    g = ref.Poly({"cx": cx, "cy": cy, "h": h, "terms": case["poly"]})
    nt, nq = sp["n"] ** 2, sp["q"] ** 2
    for i, v in enumerate(C):
        p = get(s, "pts", i, (nq, 2))
        x, y = p[:, 0], p[:, 1]
        val, gx, gy = (get(s, k, i, (nt, nq)) for k in ("val", "gx", "gy"))
        B = edges_flux(v, g, sp, sp["n"])
        r = build.RefCell(v, sp)
        S = (np.abs(r.gx) @ np.abs(g(r.x, r.y)) + np.abs(r.gy) @ np.abs(g(r.x, r.y))).max() + (r.phi_scale.max() * r.mult.sum() * (np.abs(g.d(x, y, 1, 0)).max() + np.abs(g.d(x, y, 0, 1)).max())) + np.abs(B).max() + 1e-300
        far = 1 + 1e-2 * r.far / r.size
        close(gx @ g(x, y), -(val @ g.d(x, y, 1, 0)) + B[0], 1e-10 * far, f"cell {i}: integration by parts in x", S)
        close(gy @ g(x, y), -(val @ g.d(x, y, 0, 1)) + B[1], 1e-10 * far, f"cell {i}: integration by parts in y", S)
    # integral of the polynomial over the domain with the weights
    tot = sum(float(np.sum(get(s, "w", i, None).reshape(-1) * g(*get(s, "pts", i, (nq, 2)).T))) for i in range(len(C)))
    a, b, w = ref.gauss2d(8)
    exact, sc = 0.0, 0.0
    for v in C:
        xx, xe, yx, ye = ref.qjac(v, a, b)
        d = np.abs(xx * ye - xe * yx)
        gv = g(*ref.qmap(v, a, b))
        exact += np.sum(w * d * gv)
        sc += np.sum(w * d * np.abs(gv))
    close(tot, exact, 1e-10 * (1 + np.abs(C).max() / np.ptp(C)), "integral of a polynomial over the domain", sc + 1e-300)
    return lab(case)


@st.composite
def s_meta(draw):
    c = draw(s_space(max_x=2, max_y=2, max_n=4, max_q=5))
    k = len(c["mesh"]["cells"])
    c["perm"] = draw(st.permutations(range(k)))
    c["move"] = {"s": draw(st.sampled_from([1.0, 2.0, 0.5])), "ang": draw(st.sampled_from([0, 90, 180, 270])), "tx": draw(st.integers(-2, 2)), "ty": draw(st.integers(-2, 2))}
    return c


def c_meta(case, ctx):
    """Moving, rotating, scaling and renumbering the cells changes the matrices accordingly."""
    m, sp, mv = case["mesh"], case["sp"], case["move"]
    C = gen.cell_coords(m)
    cx, cy, h = gen.mesh_scale(m)
    k = mv["ang"]
    c, s_ = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}[k]
    R = np.array([[c, -s_], [s_, c]], dtype=float)
    D = (C @ R.T) * mv["s"] + np.array([mv["tx"], mv["ty"]]) * h
    D = D[np.array(case["perm"])]
    a = build.space(m, sp, coords=C)
    b = build.space(m, sp, coords=D)
    nt, nq = sp["n"] ** 2, sp["q"] ** 2
    S = mv["s"]
    for j, i in enumerate(case["perm"]):
        r = build.RefCell(C[i], sp)
        far = 1 + 0.05 * (r.far + 2 * h) / r.size
        P = get(a, "pts", i, (nq, 2))
        Q = get(b, "pts", j, (nq, 2))
        close(Q, (P @ R.T) * S + np.array([mv["tx"], mv["ty"]]) * h, 1e-11, "moved quadrature points", np.abs(D).max() + np.abs(C).max())
        close(get(b, "val", j, (nt, nq)), S * S * get(a, "val", i, (nt, nq)), 1e-9 * far, "values on the moved cell", r.phi_scale * r.w.max() * r.size**2 * S * S)
        G = np.stack([get(a, "gx", i, (nt, nq)), get(a, "gy", i, (nt, nq))])
        H = np.stack([get(b, "gx", j, (nt, nq)), get(b, "gy", j, (nt, nq))])
        close(H, np.einsum("ab,bij->aij", R, G) * S, 1e-9 * far, "gradients on the moved cell", r.g_scale * S)
    return lab(case)


@st.composite
def s_big(draw):
    """Larger spaces: many cells, high order, many quadrature points."""
    m = draw(gen.mesh(6, 6))
    return {"mesh": m, "sp": draw(gen.fespec(m["kind"], 12, 14))}


@st.composite
def s_many(draw):
    m = draw(gen.many_cells())
    return {"mesh": m, "sp": draw(gen.fespec(m["kind"], 3, 4))}


@st.composite
def s_rule(draw):
    """One or two cells with rules far above those in use."""
    c = draw(s_space(max_x=2, max_y=1, max_n=4))
    c["sp"]["q"] = draw(st.integers(15, 48))
    return c


FACETS = [
    Facet("matrices", s_space, c_tensors, 1200, rule="meshes of 1-9 cells (uniform, sheared, general; any node/cell order, orientation, size, position) x family x order x rule x map: every accessor of every cell against the definition; non-trivial: several cells or order > 2"),
    Facet("matrices-large", s_big, c_tensors, 96, rule="as matrices, up to 36 cells, order up to 12, up to 14x14 points"),
    Facet("many-points", s_rule, c_tensors, 48, rule="as matrices, rules of 15x15 to 48x48 points"),
    Facet("many-cells", s_many, c_tensors, 16, 48, rule="as matrices, 64-300 cells of order 2-3"),
    Facet("integration-by-parts", s_ident, c_ident, 800, rule="random polynomial g: int g grad(phi) + int grad(g) phi equals the boundary integral; the weights integrate g"),
    Facet("moved-mesh", s_meta, c_meta, 480, rule="metamorphic: rigid motion, scaling and renumbering of the cells"),
]
