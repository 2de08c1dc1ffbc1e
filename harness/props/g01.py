"""G01: meshes of rectangles made by the library itself."""
import os

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from engine import Facet, arr, close, need, sut


@st.composite
def s_mesh(draw, max_x=7, max_y=7):
    s = draw(st.sampled_from(gen.SCALES))
    ox = draw(st.integers(-40, 40)) / 8
    oy = draw(st.integers(-40, 40)) / 8
    wx = draw(st.integers(1, 24)) / 4
    wy = draw(st.integers(1, 24)) / 4
    ints = s == 1.0 and draw(st.booleans())
    lim = [ox * s, (ox + wx) * s, oy * s, (oy + wy) * s]
    if ints:
        lim = [int(np.floor(lim[0])), int(np.floor(lim[0])) + max(1, int(wx)), int(np.floor(lim[2])), int(np.floor(lim[2])) + max(1, int(wy))]
    return {
        "lim": lim,
        "box": draw(st.sampled_from(["list", "tuple"])),
        "nx": draw(gen.few(st.integers(1, max_x), st.integers(8, 40))) if max_x > 4 else draw(st.integers(1, max_x)),
        "ny": draw(gen.few(st.integers(1, max_y), st.integers(8, 20))) if max_y > 4 else draw(st.integers(1, max_y)),
        "nb": draw(gen.few(st.integers(4, 90), st.integers(91, 4000))),
        "tx": draw(gen.few(st.integers(2, 9), st.integers(10, 120))),
        "ty": draw(gen.few(st.integers(2, 9), st.integers(10, 120))),
    }


def make(g, c):
    b = {"list": list, "tuple": tuple}[c["box"]]
    L = c["lim"]
    with sut("generate_quad_mesh_internal"):
        return g.generate_quad_mesh_internal(x_limits=b(L[:2]), y_limits=b(L[2:]), n_cells_x=c["nx"], n_cells_y=c["ny"], num_boundary_points=c["nb"])


def distinct(v, tol):
    v = np.sort(np.ravel(v))
    return v[np.r_[True, np.diff(v) > 16 * tol]]


def spans(p, L):
    """The bounding box of the points is the rectangle, up to a few units in the last place."""
    tol = 1e-14 * (max(map(abs, L)) + np.ptp(L))
    return np.all(np.abs(np.r_[p[:, 0].min(), p[:, 0].max(), p[:, 1].min(), p[:, 1].max()] - L) <= tol)


def check_cells(g, c, cells):
    L = c["lim"]
    nx, ny = c["nx"], c["ny"]
    n = nx * ny
    hx, hy = (L[1] - L[0]) / nx, (L[3] - L[2]) / ny
    big = max(abs(k) for k in L)
    tol = 1e-13 * (big + max(hx, hy))
    C = arr(cells, (n, 4, 2), "cells")
    seen = set()
    for q in C:
        need(build.ccw_cell(q), "a cell is not counter-clockwise and convex")
        i = int(round((q[:, 0].mean() - L[0]) / hx - 0.5))
        j = int(round((q[:, 1].mean() - L[2]) / hy - 0.5))
        need(0 <= i < nx and 0 <= j < ny, f"a cell lies outside the domain (column {i}, row {j})")
        need((i, j) not in seen, f"the cell in column {i}, row {j} occurs twice")
        seen.add((i, j))
        x0, y0 = L[0] + i * hx, L[2] + j * hy
        want = np.array([[x0, y0], [x0 + hx, y0], [x0 + hx, y0 + hy], [x0, y0 + hy]])
        need(build.same_cycle(q, want, 4 * tol), lambda: f"cell in column {i}, row {j} is {q.tolist()}, expected {want.tolist()}")
    # neighbours share their vertices, the domain is hit, both up to a few units in the last place
    need(len(distinct(C[:, :, 0], tol)) == nx + 1 and len(distinct(C[:, :, 1], tol)) == ny + 1, "cells do not fit together")
    need(spans(C.reshape(-1, 2), L), "the mesh does not fill the domain exactly")
    # the mesh object describes the same cells
    P = arr(g.mesh.points, None, "mesh points")
    with sut("mesh.cells_dict"):
        conn = np.asarray(g.mesh.cells_dict["quad"])
    need(conn.shape == (n, 4) and np.issubdtype(conn.dtype, np.integer), lambda: f"mesh connectivity of shape {conn.shape} and type {conn.dtype}")
    need(conn.min() >= 0 and conn.max() < len(P), "mesh connectivity refers to points which do not exist")
    Q = P[conn][:, :, :2]
    for q, c_ in zip(Q, C):
        need(build.same_cycle(q, c_, 4 * tol), "the mesh object's cells differ from the returned cells")
    need(spans(P, L), "bounding box of the mesh object")


def check_bd(c, bd):
    L = c["lim"]
    k = c["nb"] // 4
    need(sorted(int(t) for t in bd) == [1000, 1001, 1002, 1003], lambda: f"boundary tags {sorted(bd)}")
    for t, (fixed, val, lo, hi) in {1000: (1, L[2], L[0], L[1]), 1001: (0, L[1], L[2], L[3]), 1002: (1, L[3], L[0], L[1]), 1003: (0, L[0], L[2], L[3])}.items():
        p = arr(bd[t], (k, 2), f"boundary points of tag {t}")
        tol = 1e-14 * (max(map(abs, L)) + np.ptp(L))
        need(np.all(np.abs(p[:, fixed] - val) <= tol), f"points of tag {t} are not on their side of the rectangle")
        o = p[:, 1 - fixed]
        need(np.all(o >= lo - tol) and np.all(o <= hi + tol), f"points of tag {t} lie outside the side")
        # spread over the whole side: a larger gap has probability below 1e-7 even for independent uniform points
        gap = np.diff(np.r_[lo, np.sort(o), hi]).max() / (hi - lo)
        need(gap <= 1 - (1e-7 / (k + 1)) ** (1 / k), f"the {k} points of tag {t} leave a gap of {gap:.3g} of the side")
        need(len(np.unique(o)) == k, f"repeated boundary points on tag {t}")


def lab(c):
    return {"cells": min(c["nx"] * c["ny"], 10), "nontrivial": c["nx"] * c["ny"] > 1}


def c_mesh(case, ctx):
    g = build.geometry("internal", ctx.tmp(), case["tx"], case["ty"], True)
    cells, bd = make(g, case)
    check_cells(g, case, cells)
    check_bd(case, bd)
    C = np.array(cells)
    need(abs(sum(ref.area(q) for q in C) - (case["lim"][1] - case["lim"][0]) * (case["lim"][3] - case["lim"][2])) <= 1e-11 * np.ptp(case["lim"]) ** 2 + 1e-13 * max(map(abs, case["lim"])) ** 2, "area")
    with sut("get_test_points"):
        T = arr(g.get_test_points(), (case["tx"] * case["ty"], 2), "test points")
    L = case["lim"]
    X, Y = np.meshgrid(np.linspace(L[0], L[1], case["tx"]), np.linspace(L[2], L[3], case["ty"]))
    close(T, np.stack([X.ravel(), Y.ravel()], 1), 1e-13, "test points", max(abs(k) for k in L) + np.ptp(L))
    return lab(case)


@st.composite
def s_large(draw):
    c = draw(s_mesh())
    c["nx"], c["ny"] = draw(st.integers(90, 220)), draw(st.integers(90, 200))
    return c


def c_large(case, ctx):
    """As c_mesh, for so many cells that they are compared as whole arrays."""
    g = build.geometry("internal", ctx.tmp(), case["tx"], case["ty"], True)
    cells, bd = make(g, case)
    L, nx, ny = case["lim"], case["nx"], case["ny"]
    C = arr(cells, (nx * ny, 4, 2), "cells")
    x, y = np.linspace(L[0], L[1], nx + 1), np.linspace(L[2], L[3], ny + 1)
    tol = 1e-12 * (max(abs(k) for k in L) + np.ptp(L))

    def order(Q, what):
        i = np.clip(np.floor((Q[:, :, 0].mean(1) - L[0]) / (L[1] - L[0]) * nx).astype(int), 0, nx - 1)
        j = np.clip(np.floor((Q[:, :, 1].mean(1) - L[2]) / (L[3] - L[2]) * ny).astype(int), 0, ny - 1)
        need(len(np.unique(i * ny + j)) == nx * ny, f"{what}: the cells are not one for every place of the grid")
        lo, hi = np.stack([x[i], y[j]], 1), np.stack([x[i + 1], y[j + 1]], 1)
        e = np.roll(Q, -1, 1) - Q
        a = 0.5 * (Q[:, :, 0] * np.roll(e[:, :, 1], 0, 1) - Q[:, :, 1] * e[:, :, 0]).sum(1)
        need(np.all(np.abs(Q.min(1) - lo) <= tol) and np.all(np.abs(Q.max(1) - hi) <= tol), f"{what}: a cell differs from its place of the grid")
        on = np.minimum(np.abs(Q - lo[:, None]), np.abs(Q - hi[:, None]))
        need(np.all(on <= tol), f"{what}: a vertex is no corner of its place of the grid")
        need(np.all(np.abs((np.abs(e) > tol).sum(2) - 1) == 0), f"{what}: an edge is not a side of its cell")
        cross = e[:, 0, 0] * e[:, 1, 1] - e[:, 0, 1] * e[:, 1, 0]
        return cross > 0

    need(np.all(order(C, "cells")), "a cell is not counter-clockwise")
    P, conn = arr(g.mesh.points, None, "mesh points"), np.asarray(g.mesh.cells_dict["quad"])
    need(conn.shape == (nx * ny, 4) and np.issubdtype(conn.dtype, np.integer), lambda: f"mesh connectivity of shape {conn.shape} and type {conn.dtype}")
    need(conn.min() >= 0 and conn.max() < len(P), "mesh connectivity refers to points which do not exist")
    Q = P[conn][:, :, :2]
    order(Q, "mesh object")
    need(np.all(np.abs(Q.mean(1) - C.mean(1)) <= tol), "the mesh object's cells differ from the returned cells")
    check_bd(case, bd)
    return {"cells": ">16384" if nx * ny > 16384 else "<=16384"}


@st.composite
def s_vtk(draw):
    c = draw(s_mesh(4, 4))
    L = c["lim"]
    r = (L[1] - L[0]) / (L[3] - L[2])
    if not 0.1 < r < 10:
        L[3] = L[2] + (L[1] - L[0])
    c["opt"] = draw(st.sampled_from([None, False, False, True]))
    return c


def c_vtk(case, ctx):
    """The triangulation written for visualisation covers the domain."""
    import meshio

    out = ctx.tmp()
    g = build.geometry("internal", out, case["tx"], case["ty"], case["opt"])
    cells, bd = make(g, case)
    check_cells(g, case, cells)
    check_bd(case, bd)
    f = os.path.join(out, "internal.vtk")
    if case["opt"]:
        need(not os.path.exists(f), "a file was written although output was switched off")
        return dict(lab(case), opt=True, nontrivial=False)
    need(os.path.exists(f), "internal.vtk was not written")
    v = meshio.read(f)
    tri = v.cells_dict.get("triangle")
    need(tri is not None and len(tri), "internal.vtk has no triangles")
    p = v.points[:, :2]
    L = case["lim"]
    tol = 1e-9 * (np.ptp(L) + max(map(abs, L)))
    close([p[:, 0].min(), p[:, 0].max(), p[:, 1].min(), p[:, 1].max()], L, 1.0, "bounding box of internal.vtk", tol)
    a, b, c = p[tri[:, 0]], p[tri[:, 1]], p[tri[:, 2]]
    area = 0.5 * np.abs((b - a)[:, 0] * (c - a)[:, 1] - (b - a)[:, 1] * (c - a)[:, 0])
    close(area.sum(), (L[1] - L[0]) * (L[3] - L[2]), 1e-8, "area of the triangulation in internal.vtk", np.ptp(L) ** 2 + max(map(abs, L)) * np.ptp(L))
    return lab(case)


@st.composite
def s_hist(draw):
    return {"calls": draw(st.lists(st.tuples(st.integers(0, 1), s_mesh(4, 4)), min_size=2, max_size=5)), "scribble": draw(st.booleans())}


def c_hist(case, ctx):
    """Several meshes made by one or two objects: the last one counts, earlier results stay what they were."""
    t = [(3, 4), (5, 2)]
    gs = [build.geometry("internal", ctx.tmp(), *t[i], True) for i in range(2)]
    kept = []
    for i, c in case["calls"]:
        cells, bd = make(gs[i], c)
        check_cells(gs[i], c, cells)
        check_bd(c, bd)
        with sut("get_test_points"):
            T = arr(gs[i].get_test_points(), (t[i][0] * t[i][1], 2), "test points")
        L = c["lim"]
        need(spans(T, L), "test points do not span the current domain")
        kept.append((cells, np.array(cells), bd, {k: np.array(v) for k, v in bd.items()}))
    for cells, c0, bd, b0 in kept:
        need(np.array_equal(cells, c0) and all(np.array_equal(bd[k], b0[k]) for k in b0), "an earlier result changed when another mesh was made")
    return {"calls": len(case["calls"]), "objects": len({i for i, _ in case["calls"]})}


FACETS = [
    Facet("mesh", s_mesh, c_mesh, 2000, rule="rectangles of any size and position, 1-800 cells, 4-4000 boundary points: tiling, orientation, mesh object, tagged sides, test grid; non-trivial: more than one cell"),
    Facet("large", s_large, c_large, 32, rule="8000-44000 cells: tiling, orientation, mesh object, tagged sides"),
    Facet("vtk", s_vtk, c_vtk, 160, rule="the triangulation written to internal.vtk covers the domain, or nothing is written when output is off"),
    Facet("history", s_hist, c_hist, 480, rule="2-5 meshes made by two objects in turn"),
]
