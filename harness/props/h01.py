"""H01: the data handler's tensors hold the space's data: values, order, shape and precision."""
import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from engine import Facet, arr, close, need, sut
from props.a01 import lab, s_space


def tensor(t, shape, dtype, what):
    with sut(what):
        s = tuple(int(k) for k in t.shape)
        n = t.dtype.name
    need(s == tuple(shape), lambda: f"{what}: shape {s}, expected {tuple(shape)}")
    need(n == dtype, lambda: f"{what}: precision {n}, expected {dtype}")
    return arr(t, shape, what)


def handler(s, g, dtype):
    import tensorflow as tf

    from fastvpinns.data.datahandler2d import DataHandler2D

    with sut("creating the data handler"):
        return DataHandler2D(s, g, dtype=getattr(tf, dtype))


class Domain:
    """A domain object as far as the data handler uses it."""

    def __init__(self, pts):
        self.pts = pts

    def get_test_points(self):
        return self.pts


@st.composite
def s_data(draw, many=False):
    if many:
        m = draw(gen.many_cells())
        c = {"mesh": m, "sp": draw(gen.fespec(m["kind"], 2, 3))}
    else:
        c = draw(s_space(max_x=3, max_y=2, max_n=4, max_q=5))
    c["dtype"] = draw(st.sampled_from(["float32", "float64"]))
    c["f"] = draw(gen.funcspec(kinds=("poly", "trig", "const")))
    c["g"] = [draw(gen.funcspec(kinds=("poly", "trig", "const"))) for _ in range(4)]
    c["k"] = draw(st.integers(1, 3))
    c["T"] = draw(st.lists(st.tuples(gen.frac(-2, 2), gen.frac(-2, 2)), min_size=1, max_size=6))
    return c


def c_data(case, ctx):
    m, sp, dt = case["mesh"], case["sp"], case["dtype"]
    C = gen.cell_coords(m)
    fr = gen.mesh_scale(m)
    f = gen.func(case["f"], *fr)
    bd = build.boundary(m, case["k"])
    fs = {t: gen.func(case["g"][t], *fr) for t in bd}
    s = build.space(m, sp, forcing=f, coords=C, bd=bd, funcs=fs)
    T = np.array(case["T"])
    domain = Domain(T)
    d = handler(s, domain, dt)
    nc, nt, nq = len(C), sp["n"] ** 2, sp["q"] ** 2
    u = 1e-9 if dt == "float64" else 3e-7
    V = tensor(d.shape_val_mat_list, (nc, nt, nq), dt, "values")
    GX = tensor(d.grad_x_mat_list, (nc, nt, nq), dt, "x gradients")
    GY = tensor(d.grad_y_mat_list, (nc, nt, nq), dt, "y gradients")
    X = tensor(d.x_pde_list, (nc * nq, 2), dt, "points").reshape(nc, nq, 2)
    F = tensor(d.forcing_function_list, (nt, nc), dt, "forcing")
    for i, v in enumerate(C):
        r = build.RefCell(v, sp)
        tol = (1e-10 if dt == "float64" else 3e-7) * (r.far + r.size)
        sep = min(np.diff(np.sort(ref.rule2d(sp["rule"], sp["q"])[0][: sp["q"]])).min(), 1) * np.sqrt(abs(ref.area(v))) / 8
        if tol < sep * 0.05:
            idx = ref.match_points(X[i], np.stack([r.x, r.y], 1), tol)
            need(idx is not None, f"cell {i}: the points are not those of the cell's quadrature")
        else:
            with sut("points"):
                idx = r.order(s.get_quadrature_actual_coordinates(i))
        far = 1 + 1e-2 * r.far / r.size if dt == "float64" else 1
        far2 = far + (1e-6 * r.far / r.size if dt == "float32" else 0)
        close(V[i], r.val[:, idx], u * far2, f"cell {i}: values", r.phi_scale * r.w.max() * r.size**2)
        close(GX[i], r.gx[:, idx], u * far2, f"cell {i}: x gradients", r.g_scale)
        close(GY[i], r.gy[:, idx], u * far2, f"cell {i}: y gradients", r.g_scale)
        fv = f(r.x, r.y) + 0 * r.x
        close(F[:, i], (r.val * fv).sum(1), u * far2, f"cell {i}: forcing", np.abs(fv).max() * r.phi_scale[:, 0] * r.mult.sum() + 1e-300)
    ex = np.array([(p[0], p[1], float(fs[t](p[0], p[1]))) for t in bd for p in bd[t]])
    with sut("get_dirichlet_input"):
        a, b = d.get_dirichlet_input()
    A = tensor(a, (len(ex), 2), dt, "Dirichlet points")
    B = tensor(b, (len(ex), 1), dt, "Dirichlet values")
    got = np.hstack([A, B])
    # the same order as the boundary dictionary, or any other: compare as sorted lists on a tolerance grid
    sc = np.abs(ex).max(0) + 1e-300
    e = 1e-11 if dt == "float64" else 3e-7
    used = np.zeros(len(ex), dtype=bool)
    for row in got:
        hit = np.where(np.all(np.abs(ex - row) <= e * (sc + [0, 0, 1]), axis=1) & ~used)[0]
        need(len(hit) > 0, lambda: f"Dirichlet point and value {row.tolist()} is not boundary data")
        used[hit[0]] = True
    with sut("get_test_points"):
        P = tensor(d.get_test_points(), T.shape, dt, "test points")
    close(P, T, 1e-15 if dt == "float64" else 1e-7, "test points", np.abs(T) + 1e-300)
    # the domain gets another mesh, the points are asked for again
    domain.pts = T2 = np.vstack([T[::-1] * 3 + 1] * 2)
    with sut("get_test_points"):
        P = tensor(d.get_test_points(), T2.shape, dt, "test points of the second mesh")
    close(P, T2, 1e-15 if dt == "float64" else 1e-7, "test points of the second mesh", np.abs(T2) + 1e-300)
    l = lab(case)
    l["dtype"] = dt
    return l


@st.composite
def s_two(draw):
    return {"a": draw(s_data()), "b": draw(s_data()), "fam": draw(st.booleans())}


def c_two(case, ctx):
    """Two handlers of different spaces and precisions do not share data."""
    out = []
    for k in "ab":
        c = case[k]
        m = c["mesh"]
        s = build.space(m, c["sp"], forcing=gen.func(c["f"], *gen.mesh_scale(m)))
        out.append((s, handler(s, Domain(np.array(c["T"])), c["dtype"])))
    for k, (s, d) in zip("ab", out):
        c = case[k]
        nq = c["sp"]["q"] ** 2
        u = 1e-12 if c["dtype"] == "float64" else 1e-6
        for i in range(s.n_cells):
            with sut("accessors"):
                pairs = [
                    (d.shape_val_mat_list[i], s.get_shape_function_val(i)),
                    (d.grad_x_mat_list[i], s.get_shape_function_grad_x(i)),
                    (d.grad_y_mat_list[i], s.get_shape_function_grad_y(i)),
                    (d.x_pde_list[i * nq : (i + 1) * nq], s.get_quadrature_actual_coordinates(i)),
                    (d.forcing_function_list[:, i : i + 1], s.get_forcing_function_values(i)),
                ]
            for nm, (x, y) in zip(["values", "x gradients", "y gradients", "points", "forcing"], pairs):
                close(arr(x), arr(y), u, f"{nm} of cell {i} against the space", np.abs(y).max() + 1e-300)
    return {"dtypes": case["a"]["dtype"] + "/" + case["b"]["dtype"]}


FACETS = [
    Facet("tensors", s_data, c_data, 640, rule="generated space x float32/float64: all five tensors, Dirichlet pairs and test points against the definition at that precision; non-trivial: several cells or order > 2"),
    Facet("many-cells", lambda: s_data(True), c_data, 16, 48, rule="as tensors, 64-300 cells of order 2"),
    Facet("two-handlers", s_two, c_two, 240, rule="two handlers alive at the same time, against their own spaces"),
]
