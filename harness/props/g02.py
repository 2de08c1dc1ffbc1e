"""G02: meshes read from Medit files."""
import os

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from engine import Facet, arr, close, fail, need, sut


@st.composite
def s_read(draw, max_x=3, max_y=3):
    c = draw(gen.medit(max_x, max_y))
    c["level"] = draw(gen.few(st.integers(0, 5), st.integers(6, 10), 25))
    c["method"] = draw(st.sampled_from(["uniform", "lhs"]))
    c["rl"] = draw(st.integers(0, 2))
    return c


def check_cells(m, cells):
    want = gen.cell_coords(m)
    C = arr(cells, (len(want), 4, 2), "cells")
    sc = np.abs(np.array(m["nodes"])).max() + 1e-300
    for k, (q, w) in enumerate(zip(C, want)):
        if ref.area(w) < 0:
            w = w[::-1]
        need(build.ccw_cell(q), f"cell {k} is not counter-clockwise and convex")
        need(build.same_cycle(q, w, 1e-12 * sc), lambda: f"cell {k} is {q.tolist()}, in the file it is {w.tolist()}")


def check_bd(m, bd, level, method):
    N = np.array(m["nodes"])
    sc = np.abs(N).max() + 1e-300
    by = {}
    for a, b, t in m["edges"]:
        by.setdefault(t, []).append((N[a], N[b]))
    need(sorted(int(t) for t in bd) == sorted(by), lambda: f"boundary tags {sorted(int(t) for t in bd)}, in the file {sorted(by)}")
    n = 2**level + 1
    for t, edges in by.items():
        p = arr(bd[t], None, f"boundary points of tag {t}")
        need(p.ndim == 2 and p.shape[1] in (2, 3), f"boundary points of tag {t} of shape {p.shape}")
        need(p.shape[1] == 2 or np.all(p[:, 2] == 0), f"tag {t}: points outside the plane")
        p = p[:, :2]
        if method == "uniform":
            want = np.vstack([np.linspace(a, b, n) for a, b in edges])
            # end points shared by two edges of the tag count once
            ends = {tuple(e) for ab in edges for e in ab}
            count = len(ends) + len(edges) * (n - 2)
            need(len(p) == count, lambda: f"tag {t}: {len(p)} points, expected {count} distinct ones")
            from scipy.spatial import cKDTree

            far = lambda a, b: cKDTree(b).query(a, p=np.inf)[0].max()
            need(far(p, want) <= 1e-12 * sc, f"tag {t}: a boundary point which is not one of the equidistant points of an edge")
            need(far(want, p) <= 1e-12 * sc, f"tag {t}: an equidistant point of an edge is missing")
        else:
            need(len(p) == n * len(edges), lambda: f"tag {t}: {len(p)} points, expected {n} on each of {len(edges)} edges")
            left = np.ones(len(p), dtype=bool)
            for a, b in edges:
                e = b - a
                L = np.hypot(*e)
                s = (p - a) @ e / L**2
                off = np.abs((p - a)[:, 0] * e[1] - (p - a)[:, 1] * e[0]) / L
                on = (off <= 1e-11 * (sc + L)) & (s >= -1e-11) & (s <= 1 + 1e-11) & left
                need(on.sum() == n, lambda: f"tag {t}: {int(on.sum())} of the sampled points on an edge, expected {n}")
                left &= ~on
                # Latin hypercube: one point in each of n equal parts of the edge
                parts = np.sort(s[on]) * n - np.arange(n)
                need(np.all(parts >= -1e-6) and np.all(parts <= 1 + 1e-6), f"tag {t}: sampled points do not fall into different parts of the edge")


@st.composite
def s_large(draw):
    c = draw(gen.big_medit())
    c["level"], c["rl"] = draw(st.integers(0, 3)), 1
    c["method"] = draw(st.sampled_from(["uniform", "lhs"]))
    return c


def c_large(case, ctx):
    return c_read(dict(case, mesh=gen.big_mesh(case["grid"])), ctx)


def lab(case):
    o = case["opt"]
    return {"mesh": case["mesh"]["kind"], "method": case["method"], "dim": o["dim"], "order": o["order"], "nontrivial": len(case["mesh"]["cells"]) > 1}


def load(case, d, g=None, name="m.mesh"):
    f = build.write_medit(os.path.join(d, name), case["mesh"], case["opt"])
    g = g or build.geometry("external", d)
    return g, build.read(g, f, case["level"], case["method"], case["rl"])


def c_read(case, ctx):
    m = case["mesh"]
    d = ctx.tmp()
    with open(build.write_medit(os.path.join(d, "m.mesh"), m, case["opt"])) as fh:
        text = fh.read()
    g, (cells, bd) = load(case, d)
    check_cells(m, cells)
    check_bd(m, bd, case["level"], case["method"])
    with open(os.path.join(d, "m.mesh")) as fh:
        need(fh.read() == text, "the mesh file was changed")
    N = np.array(m["nodes"])
    close(np.asarray(g.mesh.points)[:, :2], N, 1e-13, "points of the mesh object", np.abs(N).max())
    need(os.path.exists(os.path.join(d, "external.vtk")), "external.vtk was not written")
    with sut("get_test_points"):
        T = arr(g.get_test_points(), (len(N), 2), "test points")
    close(T, N, 1e-12, "test points against the nodes of the mesh", np.abs(N).max())
    A = sum(ref.area(q) for q in np.array(cells))
    B = sum(abs(ref.area(q)) for q in gen.cell_coords(m))
    close(A, B, 1e-10, "area of the mesh", B + np.abs(N).max() * np.ptp(N) * 1e-3)
    return lab(case)


@st.composite
def s_hist(draw):
    k = draw(st.integers(2, 4))
    return {"calls": [[draw(st.integers(0, 1)), draw(s_read(2, 2))] for _ in range(k)]}


def c_hist(case, ctx):
    """Several files read by one or two objects, also over the same name."""
    ds = [ctx.tmp(), ctx.tmp()]
    gs = [build.geometry("external", d) for d in ds]
    kept = []
    for i, c in case["calls"]:
        _, (cells, bd) = load(c, ds[i], gs[i])
        check_cells(c["mesh"], cells)
        check_bd(c["mesh"], bd, c["level"], c["method"])
        N = np.array(c["mesh"]["nodes"])
        with sut("get_test_points"):
            T = arr(gs[i].get_test_points(), (len(N), 2), "test points")
        close(T, N, 1e-12, "test points against the nodes of the current mesh", np.abs(N).max())
        kept.append((cells, np.array(cells), bd, {k: np.array(v) for k, v in bd.items()}))
    for cells, c0, bd, b0 in kept:
        need(np.array_equal(cells, c0) and list(bd) == list(b0) and all(np.array_equal(bd[k], b0[k]) for k in b0), "an earlier result changed when another mesh was read")
    return {"calls": len(case["calls"])}


@st.composite
def s_space(draw):
    c = draw(s_read(3, 2))
    c["sp"] = dict(draw(gen.fespec("general", 4, 5)))
    c["poly"] = draw(gen.poly(2))["terms"]
    c["fs"] = [draw(gen.funcspec(kinds=("poly", "trig", "const"))) for _ in range(4)]
    return c


def c_space(case, ctx):
    """File -> cells -> space: the weights integrate polynomials over the domain in the file, Dirichlet data belong to the file's tags."""
    m, sp = case["mesh"], case["sp"]
    g, (cells, bd) = load(case, ctx.tmp())
    h = gen.mesh_scale(m)
    fs = {t: gen.func(case["fs"][k % 4], *h) for k, t in enumerate(sorted({t for _, _, t in m["edges"]}))}
    s = build.space(m, sp, coords=cells, bd=bd, funcs=fs, mesh=g.mesh)
    p = ref.Poly({"cx": h[0], "cy": h[1], "h": h[2], "terms": case["poly"]})
    got, want, sc = 0.0, 0.0, 1e-300
    a, b, w = ref.gauss2d(6)
    for i, v in enumerate(gen.cell_coords(m)):
        with sut("weights and points"):
            P = arr(s.get_quadrature_actual_coordinates(i), (None, 2), "points")
            got += np.sum(arr(s.get_quadrature_weights(i), None, "weights").reshape(-1) * p(P[:, 0], P[:, 1]))
        xx, xe, yx, ye = ref.qjac(v, a, b)
        f = p(*ref.qmap(v, a, b)) * w * np.abs(xx * ye - xe * yx)
        want += f.sum()
        sc += np.abs(f).sum()
    if sp["q"] >= 4:
        close(got, want, 1e-9 * (1 + np.abs(m["nodes"]).max() / np.ptp(m["nodes"])), "integral of a polynomial over the mesh in the file", sc)
    with sut("generate_dirichlet_boundary_data"):
        x, y = s.generate_dirichlet_boundary_data()
    X = np.array(x)[:, :2]
    Y = np.array(y).reshape(-1)
    # every value is that of a function of a tag whose edges contain the point
    N = np.array(m["nodes"])
    scn = np.abs(N).max()
    for q, val in zip(X, Y):
        ok = False
        for e0, e1, t in m["edges"]:
            e = N[e1] - N[e0]
            L2 = e @ e
            sp_ = (q - N[e0]) @ e / L2
            off = abs((q - N[e0])[0] * e[1] - (q - N[e0])[1] * e[0]) / np.sqrt(L2)
            if off <= 1e-10 * (scn + np.sqrt(L2)) and -1e-10 <= sp_ <= 1 + 1e-10 and abs(fs[t](q[0], q[1]) - val) <= 1e-9 * (1 + abs(val)):
                ok = True
                break
        need(ok, lambda: f"Dirichlet value {val} at {q.tolist()} belongs to no edge through that point")
    return lab(case)


@st.composite
def s_bad(draw):
    c = draw(s_read(2, 2))
    c["bad"] = draw(st.sampled_from(["ext", "method"]))
    c["ext"] = draw(st.sampled_from([".msh", ".vtk", ".txt", "", ".mesh2", ".MESH", ".meshb"]))
    c["method"] = draw(st.sampled_from(["Uniform", "random", "", "latin", "sobol", "LHS"])) if c["bad"] == "method" else c["method"]
    return c


def c_bad(case, ctx):
    d = ctx.tmp()
    name = "m" + (case["ext"] if case["bad"] == "ext" else ".mesh")
    f = build.write_medit(os.path.join(d, name), case["mesh"], case["opt"])
    g = build.geometry("external", d)
    try:
        g.read_mesh(f, case["level"], case["method"], case["rl"])
    except ValueError:
        return {"bad": case["bad"]}
    except Exception as e:
        fail(f"{name}, method {case['method']!r}: {type(e).__name__}, expected ValueError")
    fail(f"{name}, method {case['method']!r} was accepted")


FACETS = [
    Facet("read", s_read, c_read, 1600, rule="generated meshes written in many ways (block order, 2D/3D, references, node/cell/edge order, edge direction, any tags, refinement level, sampling method): cells, orientation, boundary points by tag, test points; non-trivial: several cells"),
    Facet("large", s_large, c_large, 16, rule="as read, 1600-17000 cells"),
    Facet("history", s_hist, c_hist, 320, rule="2-4 files read by two objects in turn, over the same file name"),
    Facet("space", s_space, c_space, 400, rule="file -> space: integrals over the domain, Dirichlet values by tag"),
    Facet("rejected", s_bad, c_bad, 160, rule="other file types and unknown sampling methods: ValueError"),
]
