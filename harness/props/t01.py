"""T01: the map from the reference square to a cell, its Jacobian and the chain rule for derivatives."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from engine import Facet, arr, close, need, sut
from props.b01 import coord


def trafo(kind, v, via="setup"):
    if not isinstance(v, np.ndarray) or v.dtype != np.int64:
        v = np.array(v, dtype=np.float64)
    with sut(f"creating the {kind} transformation"):
        if via == "setup":
            from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain

            s = FE2DSetupMain(cell_type="quadrilateral", fe_order=2, fe_type="legendre", quad_order=3, quad_type="gauss-legendre")
            t = s.assign_fe_transformation(kind, v)
        else:
            from fastvpinns.FE.quad_affine import QuadAffin
            from fastvpinns.FE.quad_bilinear import QuadBilinear

            t = (QuadAffin if kind == "affine" else QuadBilinear)(v)
        if via == "set":
            t.set_cell()
    return t


@st.composite
def s_quad(draw, kinds=("rect", "para", "general"), lo=1, hi=8):
    q = draw(gen.quad(kinds, slender=12))
    n = draw(st.integers(lo, hi))
    return {
        "quad": q,
        "trafo": "bilinear" if q["kind"] == "general" else draw(st.sampled_from(["affine", "bilinear"])),
        "via": draw(st.sampled_from(["setup", "class", "set"])),
        "pts": [[draw(coord), draw(coord)] for _ in range(n)],
    }


@st.composite
def s_whole(draw):
    """Cells whose vertices are whole numbers, given as floating point or integer arrays."""
    d = draw(st.lists(st.integers(-4, 4), min_size=8, max_size=8))
    n = draw(st.sampled_from([1, 2, 5, 100]))
    a, b, o = draw(st.integers(1, 9)) * n, draw(st.integers(1, 9)) * n, draw(st.integers(-50, 50))
    v = np.array([[0, 0], [a, 0], [a, b], [0, b]])
    kind = draw(st.sampled_from(["rect", "para", "general"]))
    if kind == "para":
        v[2:, 0] += d[0] * n
    elif kind == "general":
        v = 10 * v + np.array(d).reshape(4, 2) * min(a, b)
    v = np.roll(v + o, draw(st.integers(0, 3)), axis=0)
    cw = draw(st.booleans())
    c = draw(s_chain())
    c["quad"] = {"kind": kind, "v": (v[::-1] if cw else v).tolist(), "cw": cw}
    c["trafo"] = "bilinear" if kind == "general" else draw(st.sampled_from(["affine", "bilinear"]))
    return c


def c_whole(case, ctx):
    q = dict(case["quad"], v=np.array(case["quad"]["v"], dtype=np.int64))
    case = dict(case, quad=q)
    c_map(case, ctx)
    c_jac(case, ctx)
    l = c_chain(case, ctx)
    need(q["v"].tolist() == case["quad"]["v"].tolist(), "the vertices were changed")
    return l


def P(case):
    p = np.array(case["pts"], dtype=np.float64)
    return p[:, 0].copy(), p[:, 1].copy()


def lab(case):
    q = case["quad"]
    return {"kind": q["kind"], "trafo": case["trafo"], "cw": q["cw"], "nontrivial": np.ptp(np.array(q["v"])) > 0}


def vec(x, n, what):
    a = arr(x, None, what)
    need(a.size in (1, n), lambda: f"{what}: {a.size} values for {n} points")
    return np.broadcast_to(a.reshape(-1), (n,)).copy()


def c_map(case, ctx):
    v = np.array(case["quad"]["v"])
    xi, eta = P(case)
    t = trafo(case["trafo"], v, case["via"])
    x, y = ref.qmap(v, xi, eta)
    s = ref.diam(v) + np.abs(v).max()
    with sut("mapping points"):
        o = arr(t.get_original_from_ref(xi, eta), (2, len(xi)), "mapped points")
        one = np.array([arr(t.get_original_from_ref(float(a), float(b)), (2,), "mapped point") for a, b in zip(xi, eta)]).T
        cor = np.array([arr(t.get_original_from_ref(a, b), (2,), "mapped corner") for a, b in [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]])
    close(o, np.stack([x, y]), 1e-13, "mapped points", s)
    close(one, np.stack([x, y]), 1e-13, "mapped single points", s)
    close(cor, v, 1e-13, "images of the corners of the reference square", s)
    return lab(case)


def c_jac(case, ctx):
    v = np.array(case["quad"]["v"])
    xi, eta = P(case)
    t = trafo(case["trafo"], v, case["via"])
    xx, xe, yx, ye = ref.qjac(v, xi, eta)
    det = xx * ye - xe * yx
    L = ref.diam(v)
    eps = 1e-12 * L * (L + 1e-2 * np.abs(v).max())
    with sut("the Jacobian determinant"):
        J = vec(t.get_jacobian(xi, eta), len(xi), "Jacobian determinant")
        J1 = np.array([float(np.squeeze(t.get_jacobian(float(a), float(b)))) for a, b in zip(xi, eta)])
        gx, gy, gw = ref.gauss2d(3)
        G = vec(t.get_jacobian(gx, gy), 9, "Jacobian determinant")
    close(J, np.abs(det), 1.0, "Jacobian determinant", eps)
    close(J1, np.abs(det), 1.0, "Jacobian determinant at single points", eps)
    close(np.sum(G * gw), abs(ref.area(v)), 1.0, "integral of the Jacobian determinant against the area of the cell", 8 * eps)
    return lab(case)


@st.composite
def s_chain(draw):
    c = draw(s_quad())
    c["polys"] = [draw(gen.poly(3))["terms"] for _ in range(draw(st.integers(1, 4)))]
    # calls made in between, which must not influence the result
    c["noise"] = draw(st.lists(st.sampled_from(["jac0", "jac", "map", "cell"]), max_size=3))
    return c


def polys(case, v):
    c = v.mean(0)
    h = ref.diam(v)
    return [ref.Poly({"cx": c[0], "cy": c[1], "h": h, "terms": t}) for t in case["polys"]]


def noise(t, case):
    for op in case.get("noise", []):
        with sut("an intermediate call"):
            if op == "jac0":
                t.get_jacobian(0.3, -0.9)
            elif op == "jac":
                t.get_jacobian(np.array([0.1, 0.2, -0.7]), np.array([0.9, -0.2, 0.4]))
            elif op == "map":
                t.get_original_from_ref(0.5, 0.5)
            else:
                t.set_cell()


def c_chain(case, ctx):
    """Reference derivatives of p(F(xi, eta)) come back as the derivatives of p."""
    v = np.array(case["quad"]["v"])
    xi, eta = P(case)
    t = trafo(case["trafo"], v, case["via"])
    x, y = ref.qmap(v, xi, eta)
    xx, xe, yx, ye = ref.qjac(v, xi, eta)
    ps = polys(case, v)
    px = np.array([p.d(x, y, 1, 0) for p in ps])
    py = np.array([p.d(x, y, 0, 1) for p in ps])
    rx = px * xx + py * yx
    ry = px * xe + py * ye
    rx0, ry0 = rx.copy(), ry.copy()
    noise(t, case)
    with sut("mapping gradients"):
        gx, gy = t.get_orig_from_ref_derivative(rx, ry, xi, eta)
    gx = arr(gx, px.shape, "x derivatives")
    gy = arr(gy, py.shape, "y derivatives")
    need(np.array_equal(rx, rx0) and np.array_equal(ry, ry0), "the reference gradients were changed")
    L = ref.diam(v)
    det = np.abs(xx * ye - xe * yx).min()
    cond = L * L / det * (1 + 1e-2 * np.abs(v).max() / L)
    S = max(np.abs(rx).max(), np.abs(ry).max(), 1e-12) * L / det
    close(gx, px, 1e-12 * cond, "x derivative of a polynomial", S)
    close(gy, py, 1e-12 * cond, "y derivative of a polynomial", S)
    l = lab(case)
    l["nontrivial"] = bool(np.abs(px).max() > 0 or np.abs(py).max() > 0)
    l["noise"] = len(case["noise"])
    return l


@st.composite
def s_second(draw):
    c = draw(s_quad(kinds=("rect", "para")))
    c["trafo"] = "affine"
    c["polys"] = [draw(gen.poly(4))["terms"] for _ in range(draw(st.integers(1, 4)))]
    c["noise"] = draw(st.lists(st.sampled_from(["jac0", "jac", "map", "cell"]), max_size=2))
    return c


def c_second(case, ctx):
    v = np.array(case["quad"]["v"])
    xi, eta = P(case)
    t = trafo("affine", v, case["via"])
    x, y = ref.qmap(v, xi, eta)
    z = np.zeros(1)
    a, b, c, d = (float(k[0]) for k in ref.qjac(v, z, z))  # x_xi x_eta y_xi y_eta
    ps = polys(case, v)
    D = {k: np.array([p.d(x, y, *k) for p in ps]) for k in [(2, 0), (1, 1), (0, 2)]}
    rxx = D[2, 0] * a * a + 2 * D[1, 1] * a * c + D[0, 2] * c * c
    rxy = D[2, 0] * a * b + D[1, 1] * (a * d + b * c) + D[0, 2] * c * d
    ryy = D[2, 0] * b * b + 2 * D[1, 1] * b * d + D[0, 2] * d * d
    noise(t, case)
    with sut("mapping second derivatives"):
        g = t.get_orig_from_ref_second_derivative(rxx, rxy, ryy, xi, eta)
    L = ref.diam(v)
    det = abs(a * d - b * c)
    cond = (L * L / det) ** 2 * (1 + 1e-2 * np.abs(v).max() / L)
    S = max(np.abs(k).max() for k in (rxx, rxy, ryy)) * (L / det) ** 2 + 1e-12
    for got, key, nm in zip(g, [(2, 0), (1, 1), (0, 2)], ["xx", "xy", "yy"]):
        close(arr(got, rxx.shape, nm), D[key], 1e-12 * cond, f"second derivative {nm} of a polynomial", S)
    l = lab(case)
    l["nontrivial"] = bool(max(np.abs(k).max() for k in D.values()) > 0)
    return l


@st.composite
def s_agree(draw):
    c = draw(s_quad(kinds=("rect", "para")))
    c["g"] = [[draw(gen.frac(-3, 3)), draw(gen.frac(-3, 3))] for _ in range(len(c["pts"]))]
    return c


def c_agree(case, ctx):
    """On a parallelogram both maps are the same map."""
    v = np.array(case["quad"]["v"])
    xi, eta = P(case)
    n = len(xi)
    A, B = trafo("affine", v, case["via"]), trafo("bilinear", v, case["via"])
    L = ref.diam(v)
    far = 1 + 1e-2 * np.abs(v).max() / L
    g = np.array(case["g"]).T
    with sut("the two transformations"):
        close(A.get_original_from_ref(xi, eta), B.get_original_from_ref(xi, eta), 1e-13, "affine and bilinear images", L + np.abs(v).max())
        ja, jb = vec(A.get_jacobian(xi, eta), n, "affine Jacobian"), vec(B.get_jacobian(xi, eta), n, "bilinear Jacobian")
        close(ja, jb, 1e-12 * far, "affine and bilinear Jacobians", L * L)
        da = np.array(A.get_orig_from_ref_derivative(g[:1], g[1:], xi, eta))
        db = np.array(B.get_orig_from_ref_derivative(g[:1], g[1:], xi, eta))
    det = ja.min()
    need(det > 0, "Jacobian determinant not positive")
    close(da, db, 1e-12 * far * L * L / det, "affine and bilinear gradients", max(np.abs(g).max(), 1e-9) * L / det)
    return lab(case)


@st.composite
def s_two(draw):
    return {
        "a": draw(gen.quad()),
        "b": draw(gen.quad()),
        "ops": draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["map", "jac", "grad", "cell"]), st.lists(st.tuples(coord, coord), min_size=1, max_size=3)), min_size=2, max_size=10)),
        "t": [draw(st.sampled_from(["affine", "bilinear"])) for _ in range(2)],
    }


def c_two(case, ctx):
    """Two cells used in turn: every answer is that of a fresh object."""
    q = [case["a"], case["b"]]
    kinds = ["bilinear" if q[i]["kind"] == "general" else case["t"][i] for i in range(2)]
    ts = [trafo(kinds[i], q[i]["v"], "class") for i in range(2)]

    def act(t, op, xi, eta):
        g = np.stack([np.cos(3 * xi), np.sin(xi + eta)])
        with sut(op):
            if op == "map":
                return np.array(t.get_original_from_ref(xi, eta))
            if op == "jac":
                return vec(t.get_jacobian(xi, eta), len(xi), "Jacobian")
            if op == "grad":
                return np.array(t.get_orig_from_ref_derivative(g, g[::-1].copy(), xi, eta))
            t.set_cell()

    for i, op, pts in case["ops"]:
        p = np.array(pts)
        a = act(ts[i], op, p[:, 0], p[:, 1])
        if op != "cell":
            b = act(trafo(kinds[i], q[i]["v"], "class"), op, p[:, 0], p[:, 1])
            close(a, b, 1e-12, f"{op} in a history against a fresh object", np.abs(b).max() + 1e-300)
    return {"len": len(case["ops"]) // 4, "nontrivial": len({i for i, _, _ in case["ops"]}) == 2}


FACETS = [
    Facet("map", s_quad, c_map, 3200, rule="rectangles, parallelograms and general convex quadrilaterals of any size, aspect, rotation, vertex order and orientation; reference points incl. corners; map against the bilinear interpolant"),
    Facet("jacobian", s_quad, c_jac, 3200, rule="|det| of the map at points, scalar and vector arguments; its integral is the area"),
    Facet("chain-rule", s_chain, c_chain, 3200, rule="gradients of polynomials given in reference coordinates come back as physical gradients; non-trivial: the gradient is not zero"),
    Facet("second-derivatives", s_second, c_second, 1600, rule="second derivatives of polynomials under affine maps"),
    Facet("affine-is-bilinear", s_agree, c_agree, 1600, rule="both maps on parallelograms"),
    Facet("whole-numbers", s_whole, c_whole, 1200, rule="as map, jacobian and chain-rule, for vertices which are whole numbers, given as an array of integers"),
    Facet("history", s_two, c_two, 1600, rule="interleaved calls on two cells against fresh objects; non-trivial: both cells used"),
]
