"""C01: invalid settings are rejected with an error, valid ones (also at the limits) are accepted."""
import os

import numpy as np
from hypothesis import strategies as st

import build
import gen
import net
import ref
from engine import Facet, arr, fail, need, sut
from props.h01 import Domain

M1 = {"nodes": [[0, 0], [2, 0], [2, 1], [0, 1]], "cells": [[0, 1, 2, 3]], "edges": [[0, 1, 7], [1, 2, 8], [2, 3, 9], [3, 0, 10]], "kind": "uniform"}

VALID = {
    "fe_type": ref.FAMILIES,
    "quad_type": ["gauss-legendre", "gauss-jacobi"],
    "fe_transformation_type": ["affine", "bilinear"],
    "cell_type": ["quadrilateral"],
    "mesh_type": ["quadrilateral"],
    "mesh_generation_method": ["internal", "external"],
    "bd_sampling_method": ["uniform", "lhs"],
}


@st.composite
def bad_name(draw, valid):
    v = draw(st.sampled_from(valid))
    how = draw(st.sampled_from(["case", "cut", "dup", "space", "other", "text", "cross", "swap"]))
    s = {
        "case": v.upper() if draw(st.booleans()) else v.capitalize(),
        "cut": v[:-1] if draw(st.booleans()) else v[1:],
        "dup": v + v[-1],
        "space": " " + v if draw(st.booleans()) else v + " ",
        "other": draw(st.sampled_from(["", "triangle", "hermite", "lagrange", "gauss", "tri", "quad", "none", "legendre_2", "chebyshev", "gauss-lobatto", "linear"])),
        "text": draw(st.text(alphabet="abcdefghij-_ ", max_size=12)),
        "cross": draw(st.sampled_from(sum(VALID.values(), []))),
        "swap": v.replace("-", "_") if "-" in v else v.replace("_", "-") + "2",
    }[how]
    return s if s not in valid else s + "?"


SPACE = ["fe_type", "quad_type", "fe_transformation_type", "cell_type", "fe_order", "quad_order"]
BAD_FE = st.one_of(st.integers(-3, 1), st.integers(1000, 1010), st.integers(-(10**6), -4), st.integers(1011, 10**7))
BAD_Q = st.one_of(st.integers(-3, 2), st.integers(10000, 10010), st.integers(-(10**6), -4), st.integers(10011, 10**7))


@st.composite
def s_space(draw):
    what = draw(st.sampled_from(SPACE))
    if what == "fe_order":
        bad = draw(BAD_FE)
    elif what == "quad_order":
        bad = draw(BAD_Q)
    else:
        bad = draw(bad_name(VALID[what]))
    return {
        "what": what,
        "bad": bad,
        "good": {k: draw(st.sampled_from(v)) for k, v in VALID.items() if k in SPACE} | {"fe_order": draw(st.sampled_from([2, 2, 3, 5])), "quad_order": draw(st.sampled_from([3, 3, 4, 6]))},
        "mesh": draw(gen.mesh(2, 2)),
    }


def fespace(case, settings, mesh):
    from fastvpinns.FE.fespace2d import Fespace2D

    bd = build.boundary(mesh)
    return Fespace2D(
        mesh=build.meshio_mesh(mesh),
        cells=gen.cell_coords(mesh),
        boundary_points=bd,
        bound_function_dict={t: build.zero for t in bd},
        bound_condition_dict={t: "dirichlet" for t in bd},
        forcing_function=build.zero,
        output_path=".",
        **settings,
    )


def rejected(what, fn, kinds=(ValueError,)):
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        fail(f"{what} raised {type(e).__name__}: {str(e)[:200]}, expected {kinds[0].__name__}")
    fail(f"{what} was accepted")


def c_space(case, ctx):
    g = dict(case["good"])
    with sut("creating a space with valid settings"):
        s = fespace(case, g, case["mesh"])
    nt, nq = g["fe_order"] ** 2, g["quad_order"] ** 2
    arr(s.get_shape_function_val(0), (nt, nq), "values of the valid space")
    rejected(f"a space with {case['what']}={case['bad']!r}", lambda: fespace(case, dict(g, **{case["what"]: case["bad"]}), case["mesh"]))
    return {"what": case["what"]}


@st.composite
def s_geo(draw):
    what = draw(st.sampled_from(["mesh_type", "mesh_generation_method", "ext", "bd_sampling_method"]))
    c = {"what": what, "gen": draw(st.sampled_from(["internal", "external"])), "opt": draw(st.booleans()), "mesh": draw(gen.medit(2, 2)), "level": draw(st.integers(0, 2))}
    if what == "ext":
        c["bad"] = draw(st.sampled_from([".msh", ".vtk", ".txt", "", ".Mesh", ".mes", ".meshh", ".mesh.bak", ".MESH", "mesh"]))
    else:
        c["bad"] = draw(bad_name(VALID[what]))
    return c


def c_geo(case, ctx):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D

    out = ctx.tmp()
    w, b = case["what"], case["bad"]
    if w in ("mesh_type", "mesh_generation_method"):
        a = ["quadrilateral", case["gen"]]
        with sut("creating a valid geometry"):
            Geometry_2D(*a, 3, 3, out, is_optimized=case["opt"])
        a[0 if w == "mesh_type" else 1] = b
        rejected(f"a geometry with {w}={b!r}", lambda: Geometry_2D(*a, 3, 3, out, is_optimized=case["opt"]))
        return {"what": w}
    good = build.write_medit(os.path.join(out, "m.mesh"), case["mesh"]["mesh"], case["mesh"]["opt"])
    g = build.geometry("external", out)
    build.read(g, good, case["level"], "uniform", 1)
    g = build.geometry("external", out)
    if w == "ext":
        path = build.write_medit(os.path.join(out, "n" + b), case["mesh"]["mesh"], case["mesh"]["opt"])
        rejected(f"a mesh file called n{b}", lambda: g.read_mesh(path, case["level"], "uniform", refinement_level=1))
    else:
        rejected(f"boundary sampling {b!r}", lambda: g.read_mesh(good, case["level"], b, refinement_level=1))
    return {"what": w}


BAD_DT = ["'float32'", "'float64'", "np.float32", "np.float64", "np.dtype('float32')", "float", "None", "32", "'tf.float32'", "[tf.float32]"]


@st.composite
def s_dtype(draw):
    c = draw(net.s_model(max_layers=1))
    c["bad"] = draw(st.sampled_from(BAD_DT))
    c["who"] = draw(st.sampled_from(["handler", "model", "model"]))
    return c


def c_dtype(case, ctx):
    import tensorflow as tf

    bad = eval(case["bad"], {"np": np, "tf": tf, "float": float})
    if case["who"] == "handler":
        from fastvpinns.data.datahandler2d import DataHandler2D

        s = build.space(M1, {"fe": "legendre", "n": 2, "rule": "gauss-legendre", "q": 3, "trafo": "affine"})
        rejected(f"a data handler with dtype={case['bad']}", lambda: DataHandler2D(s, Domain(np.zeros((1, 2))), dtype=bad), (TypeError,))
        with sut("a data handler with a valid dtype"):
            DataHandler2D(s, Domain(np.zeros((1, 2))), dtype=getattr(tf, case["dtype"]))
        return {"who": "handler"}
    d = net.problem(case)
    kw = {}
    m = net.make(case, d, keep=kw)
    kw["tensor_dtype"] = bad
    rejected(f"a model with dtype={case['bad']}", lambda: type(m)(**kw), (TypeError, ValueError))
    return {"who": case["kind"]}


@st.composite
def s_direct(draw):
    """The parts used alone."""
    what = draw(st.sampled_from(["rule", "rule-order", "setup-order", "setup-type", "setup-quad", "setup-trafo", "setup-cell"]))
    bad = {
        "rule": bad_name(VALID["quad_type"]),
        "rule-order": BAD_Q,
        "setup-order": BAD_FE,
        "setup-type": bad_name(VALID["fe_type"]),
        "setup-quad": BAD_Q,
        "setup-trafo": bad_name(VALID["fe_transformation_type"]),
        "setup-cell": bad_name(VALID["cell_type"]),
    }[what]
    return {"what": what, "bad": draw(bad), "fe": draw(st.sampled_from(ref.FAMILIES)), "n": draw(st.sampled_from([2, 3, 31])), "q": draw(st.sampled_from([3, 4, 30])), "rule": draw(st.sampled_from(VALID["quad_type"])), "trafo": draw(st.sampled_from(VALID["fe_transformation_type"]))}


def c_direct(case, ctx):
    import fastvpinns.FE.fespace2d  # noqa: F401
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    from fastvpinns.FE.quadratureformulas_quad2d import Quadratureformulas_Quad2D

    C = np.array([[0.0, 0], [1, 0], [1, 1], [0, 1]])

    def full(cell="quadrilateral", n=case["n"], fe=case["fe"], q=case["q"], rule=case["rule"], trafo=case["trafo"]):
        s = FE2DSetupMain(cell, n, fe, q, rule)
        b = s.assign_basis_function()
        w = s.assign_quadrature_rules()
        t = s.assign_fe_transformation(trafo, C)
        return b, w, t

    with sut("valid settings"):
        b, w, t = full()
    need(b is not None and t is not None and len(w) == 3, "valid settings give no complete element")
    need(all(len(np.asarray(x)) == case["q"] ** 2 for x in w), "number of quadrature points")
    k, bad = case["what"], case["bad"]
    fn = {
        "rule": lambda: Quadratureformulas_Quad2D(case["q"], bad),
        "rule-order": lambda: full(q=bad),
        "setup-order": lambda: full(n=bad),
        "setup-type": lambda: full(fe=bad),
        "setup-quad": lambda: full(q=bad),
        "setup-trafo": lambda: full(trafo=bad),
        "setup-cell": lambda: full(cell=bad),
    }[k]
    rejected(f"{k} {bad!r}", fn)
    return {"what": k}


@st.composite
def s_limit(draw):
    q = draw(st.one_of(st.sampled_from([3, 4, 999, 1000, 1001]), st.integers(60, 1500), st.sampled_from([9998, 9999]), st.integers(1500, 9999)))
    n = draw(st.one_of(st.sampled_from([2, 3, 998, 999]), st.integers(4, 999)))
    return {"fe": draw(st.sampled_from(ref.FAMILIES)), "n": n, "q": q, "rule": draw(st.sampled_from(VALID["quad_type"])), "trafo": draw(st.sampled_from(VALID["fe_transformation_type"]))}


def c_limit(case, ctx):
    """Orders up to the limits are accepted; rules with more than 1500^2 points are not computed but recorded by a stand-in."""
    import fastvpinns.FE.fespace2d  # noqa: F401
    from fastvpinns.FE import fe2d_setup_main as M

    def go(q):
        s = M.FE2DSetupMain("quadrilateral", case["n"], case["fe"], q, case["rule"])
        return s.assign_basis_function(), s.assign_quadrature_rules()

    if case["q"] <= 1500:
        with sut("an element of valid orders"):
            b, w = go(case["q"])
        need(all(len(np.asarray(x)) == case["q"] ** 2 for x in w), "number of quadrature points")
    else:
        seen = []

        class Stub:
            def __init__(self, quad_order, quad_type):
                seen.append((quad_order, quad_type))

            def get_quad_values(self):
                return 1, 2, 3

        old = getattr(M, "Quadratureformulas_Quad2D", None)
        if old is None:
            return {"stand-in": "unused", "nontrivial": False}
        M.Quadratureformulas_Quad2D = Stub
        try:
            try:
                go(5)
            except Exception:
                seen.clear()
            if seen != [(5, case["rule"])]:
                return {"stand-in": "unused", "nontrivial": False}
            with sut("an element of valid orders"):
                b, w = go(case["q"])
        finally:
            M.Quadratureformulas_Quad2D = old
        need(seen[1:] == [(case["q"], case["rule"])], lambda: f"the rule asked for is {seen[1:]}")
    need(b is not None, "no basis")
    return {"stand-in": case["q"] > 1500}


@st.composite
def s_problem(draw):
    return {"mesh": draw(gen.mesh(2, 2)), "drop": draw(st.integers(0, 3)), "k": draw(st.integers(1, 3))}


def c_problem(case, ctx):
    """A boundary without a boundary function is an error, not silently left out."""
    m = case["mesh"]
    bd = build.boundary(m, case["k"])
    fs = {t: build.zero for t in bd if t != case["drop"]}
    sp = {"fe": "legendre", "n": 2, "rule": "gauss-legendre", "q": 3, "trafo": "bilinear"}
    from fastvpinns.FE.fespace2d import Fespace2D

    def go():
        s = Fespace2D(
            mesh=build.meshio_mesh(m), cells=gen.cell_coords(m), boundary_points=bd, cell_type="quadrilateral", fe_order=2, fe_type="legendre", quad_order=3, quad_type="gauss-legendre",
            fe_transformation_type="bilinear", bound_function_dict=fs, bound_condition_dict={t: "dirichlet" for t in bd}, forcing_function=build.zero, output_path=".",
        )
        s.generate_dirichlet_boundary_data()

    rejected(f"a problem without a function for boundary {case['drop']}", go, (Exception,))
    return {}


FACETS = [
    Facet("space-settings", s_space, c_space, 800, rule="one invalid setting (misspelt names, orders outside the range) among random valid ones: ValueError; the same settings without it work"),
    Facet("geometry-settings", s_geo, c_geo, 400, rule="invalid mesh type, generation method, sampling method, file extension: ValueError; the valid ones work"),
    Facet("precision", s_dtype, c_dtype, 96, rule="data handler and all models with something which is not a TensorFlow dtype: TypeError (models: or ValueError)"),
    Facet("parts", s_direct, c_direct, 800, rule="element set-up and quadrature rules used alone"),
    Facet("limits", s_limit, c_limit, 64, rule="element orders 2..999 with quadrature orders 3..9999 are accepted (rules above order 1500 through a recording stand-in, skipped if the element does not use it)"),
    Facet("missing-boundary-function", s_problem, c_problem, 120, rule="a boundary tag without a function: an exception"),
]
