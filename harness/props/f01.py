"""F01: the forcing term tested with every test function."""
import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from engine import Facet, arr, close, need, sut
from props.a01 import lab, s_space


@st.composite
def s_scalar(draw, many=False, rule=False):
    if rule:
        c = draw(s_space(max_x=2, max_y=1, max_n=4))
        c["sp"]["q"] = draw(st.integers(15, 40))
    elif many:
        m = draw(gen.many_cells())
        c = {"mesh": m, "sp": draw(gen.fespec(m["kind"], 2, 3))}
    else:
        c = draw(s_space(max_x=2, max_y=2))
    c["f"] = draw(gen.funcspec())
    c["np"] = draw(st.booleans())
    c["whole"] = draw(st.integers(0, 5))
    return c


def want(v, sp, fs):
    r = build.RefCell(v, sp)
    out = []
    for f in fs:
        fv = f(r.x, r.y) + 0 * r.x
        out.append(((r.val * fv).sum(1), np.abs(fv).max() * r.phi_scale[:, 0] * r.mult.sum() + 1e-300, 1 + 1e-2 * r.far / r.size))
    return out


def check_cell(s, i, v, sp, f):
    (ref_i, sc, far) = want(v, sp, [f])[0]
    with sut(f"get_forcing_function_values({i})"):
        g = s.get_forcing_function_values(i)
    g = arr(g, (sp["n"] ** 2, 1), "forcing values")[:, 0]
    close(g, ref_i, 1e-9 * far, f"cell {i}: integral of the forcing term with the test functions", sc)
    return g


def c_scalar(case, ctx):
    m, sp = case["mesh"], case["sp"]
    f = gen.func(case["f"], *gen.mesh_scale(m))
    C = gen.cell_coords(m)
    if case["f"]["k"] == "step" and not clear(case["f"], f, C, sp):
        return {"nontrivial": False}
    # a forcing function may return a plain number as well as an array
    user = f if case["np"] else (lambda x, y: float(f(x, y)) if np.ndim(x) == 0 else f(x, y))
    if case["whole"] == 3:  # functions of one point, not elementwise on arrays
        user = lambda x, y: np.max(np.stack([f(x, y), f(x, y)]))
    elif case["whole"] == 4:
        user = lambda x, y: f(x, y) + (np.max(x) - np.min(x) + np.size(x) - 1)
    s = build.space(m, sp, forcing=user, coords=C)
    mx = 0.0
    for i, v in enumerate(C):
        mx = max(mx, np.abs(check_cell(s, i, v, sp, f)).max())
    l = lab(case)
    l["f"] = case["f"]["k"]
    l["nontrivial"] = mx > 0
    return l


def clear(spec, f, C, sp):
    """No quadrature point lies within rounding of the jump of a step function."""
    for v in C:
        r = build.RefCell(v, sp)
        d = 1e-9 * r.size + 1e-13 * r.far
        f0 = f(r.x, r.y)
        for dx, dy in [(d, d), (d, -d), (-d, d), (-d, -d)]:
            if not np.array_equal(f(r.x + dx, r.y + dy), f0):
                return False
    return True


@st.composite
def s_vector(draw):
    c = draw(s_space(max_x=2, max_y=2))
    c["fs"] = [draw(gen.funcspec(kinds=("poly", "trig", "const"))) for _ in range(draw(st.integers(2, 3)))]
    k = len(c["mesh"]["cells"])
    c["calls"] = draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, len(c["fs"]) - 1)), min_size=1, max_size=8))
    c["box"] = draw(st.sampled_from(["tuple", "list", "array"]))
    return c


def c_vector(case, ctx):
    """Components of a vector forcing, asked for in any order."""
    m, sp = case["mesh"], case["sp"]
    fs = [gen.func(f, *gen.mesh_scale(m)) for f in case["fs"]]
    box = {"tuple": tuple, "list": list, "array": np.array}[case["box"]]
    C = gen.cell_coords(m)
    s = build.space(m, sp, forcing=lambda x, y: box([f(x, y) for f in fs]), coords=C)
    for i, k in case["calls"]:
        ref_i, sc, far = want(C[i], sp, fs)[k]
        with sut(f"get_forcing_function_values_vector({i}, {k})"):
            g = s.get_forcing_function_values_vector(i, k)
        g = arr(g, (sp["n"] ** 2, 1), "forcing values")[:, 0]
        close(g, ref_i, 1e-9 * far, f"cell {i}, component {k}: integral of the forcing term", sc)
    l = lab(case)
    l["nontrivial"] = len({k for _, k in case["calls"]}) > 1
    return l


@st.composite
def s_linear(draw):
    c = draw(s_space(max_x=2, max_y=2, max_n=4))
    c["f"] = draw(gen.funcspec(kinds=("poly", "trig", "const")))
    c["g"] = draw(gen.funcspec(kinds=("poly", "trig", "const")))
    c["a"] = draw(gen.frac(-4, 4))
    return c


def c_linear(case, ctx):
    """Linearity in the forcing function, and the constant forcing gives the integrals of the test functions."""
    m, sp = case["mesh"], case["sp"]
    f, g = (gen.func(case[k], *gen.mesh_scale(m)) for k in "fg")
    a = case["a"]
    C = gen.cell_coords(m)
    F, G, H, one = (build.space(m, sp, forcing=h, coords=C) for h in (f, g, lambda x, y: a * f(x, y) + g(x, y), lambda x, y: 1.0 + 0 * x))
    for i, v in enumerate(C):
        with sut("forcing values"):
            x, y, z, o = (arr(s.get_forcing_function_values(i), (sp["n"] ** 2, 1), "forcing values") for s in (F, G, H, one))
            V = arr(one.get_shape_function_val(i), (sp["n"] ** 2, None), "values")
            P = arr(one.get_quadrature_actual_coordinates(i), None, "points")
        S = np.abs(V).sum() * (1 + abs(a)) * (np.abs(f(P[:, 0], P[:, 1])).max() + np.abs(g(P[:, 0], P[:, 1])).max() + 1)
        close(z, a * x + y, 1e-12, f"cell {i}: linearity", S)
        close(o[:, 0], V.sum(1), 1e-12, f"cell {i}: constant forcing", S)
    return lab(case)


@st.composite
def s_hist(draw):
    c = draw(s_space(max_x=2, max_y=2, max_n=4))
    k = len(c["mesh"]["cells"])
    c["f"] = [draw(gen.funcspec(kinds=("poly", "trig"))) for _ in range(2)]
    c["calls"] = draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, k - 1), st.booleans()), min_size=2, max_size=10))
    return c


def c_hist(case, ctx):
    """Two spaces with different forcing, used in turn, results overwritten in between."""
    m, sp = case["mesh"], case["sp"]
    fs = [gen.func(f, *gen.mesh_scale(m)) for f in case["f"]]
    C = gen.cell_coords(m)
    ss = [build.space(m, sp, forcing=f, coords=C) for f in fs]
    for j, i, scribble in case["calls"]:
        g = check_cell(ss[j], i, C[i], sp, fs[j])
        if scribble:
            with sut("forcing values"):
                ss[j].get_forcing_function_values(i)[:] = 1e9
            ss[j].get_shape_function_val(i)[:] = 1e9
            ss[j].get_quadrature_actual_coordinates(i)[:] = 1e9
    l = lab(case)
    l["nontrivial"] = len({j for j, _, _ in case["calls"]}) == 2
    return l


FACETS = [
    Facet("scalar", s_scalar, c_scalar, 1000, rule="polynomial, trigonometric, constant and discontinuous forcing on generated meshes and spaces, every cell; non-trivial: the integrals are not all zero"),
    Facet("vector", s_vector, c_vector, 800, rule="2-3 component forcing, cells and components in random order; non-trivial: several components asked for"),
    Facet("many-cells", lambda: s_scalar(True), c_scalar, 16, 48, rule="as scalar, 64-300 cells of order 2"),
    Facet("many-points", lambda: s_scalar(rule=True), c_scalar, 32, rule="as scalar, rules of 15x15 to 40x40 points"),
    Facet("linearity", s_linear, c_linear, 320, rule="a f + g against a (f) + (g); f = 1 gives the integrals of the test functions"),
    Facet("history", s_hist, c_hist, 480, rule="two spaces in turn with results overwritten; non-trivial: both used"),
]
