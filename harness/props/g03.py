"""G03: results written to VTK files are read back as they were."""
import os

import numpy as np
from hypothesis import strategies as st

import build
import gen
from engine import Facet, arr, close, fail, need, sut
from props.g01 import make
from props.g02 import load

name = st.one_of(
    st.sampled_from(["Sol", "Exact", "Error", "u", "POINT_DATA_2", "eps", "SCALARS", "LOOKUP", "points", "CELLS1"]),
    st.text("abcdefgXYZ_0123456789", min_size=1, max_size=12),
    st.builds(lambda a, n, b: (a * 90)[:n] + b, st.sampled_from(["coefficient_", "x", "Sol"]), st.integers(15, 90), st.sampled_from(["_a", "_b", "1", "2"])),
)
odd = st.sampled_from([float("nan"), float("inf"), float("-inf")])
value = gen.few(st.one_of(gen.frac(-10, 10), st.sampled_from([0.0, -0.0, 1e-30, -1e30, 1e-7, 123456789.0, 1 / 3])), odd.map(str), 25)


@st.composite
def s_mesh(draw, internal, big=True):
    if not internal:
        c = draw(gen.medit(3, 3))
        c["level"], c["method"], c["rl"] = 1, "uniform", 1
        c["name"] = draw(st.sampled_from(["m.mesh", "m.mesh", "n.mesh"]))
        return c
    c = {"lim": [0.0, draw(st.integers(1, 3)) / 2, -1.0, draw(st.integers(0, 2)) / 2], "box": "list", "nx": draw(st.integers(1, 2)), "ny": draw(st.integers(1, 2)), "nb": 8}
    if big:
        c["tx"], c["ty"] = (draw(gen.few(st.integers(2, 5), st.integers(6, 40))) for _ in range(2))
    return c


@st.composite
def s_write(draw, internal=None):
    internal = draw(st.booleans()) if internal is None else internal
    c = draw(s_mesh(internal))
    c["internal"] = internal
    c["writes"] = [draw(s_one()) for _ in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 3)) == 0:  # the same geometry gets another mesh
        c["writes"] += [{"remesh": draw(s_mesh(internal, False))}] + [draw(s_one()) for _ in range(draw(st.integers(1, 2)))]
    return c


@st.composite
def s_large(draw):
    internal = draw(st.booleans())
    if internal:
        c = draw(s_mesh(True))
        c["tx"], c["ty"] = draw(st.integers(60, 150)), draw(st.integers(60, 150))
    else:
        c = draw(gen.big_medit(60, 160))
        c["level"], c["method"], c["rl"], c["name"] = 0, "uniform", 1, "m.mesh"
    c["internal"] = internal
    c["writes"] = [draw(s_one()) for _ in range(draw(st.integers(1, 2)))]
    return c


def c_large(case, ctx):
    if not case["internal"]:
        case = dict(case, mesh=gen.big_mesh(case["grid"]))
    return c_write(case, ctx)


@st.composite
def s_one(draw):
    k = draw(st.integers(1, 4))
    return {
        "names": draw(st.lists(name, min_size=k, max_size=k, unique_by=str.lower)),
        "vals": [draw(st.lists(value, min_size=1, max_size=7)) for _ in range(k)],
        "dtype": draw(st.sampled_from(["float64", "float32"])),
        "file": draw(st.sampled_from(["a.vtk", "b.vtk", "pred_1.vtk", "a.vtk", "b.vtk", "internal.vtk", "external.vtk", "eps_0.1.vtk", "u 2.vtk", "pred.0001.vtk", "a.b.vtk"])),
        "sub": draw(st.booleans()),
        "bad": draw(st.sampled_from([0, 0, 0, 1, -1])),
    }


def field(w, n):
    cols = []
    for k, v in enumerate(w["vals"]):
        base = np.array([float(x) for x in v])[np.arange(n) % len(v)]
        cols.append(base * (1 + (np.arange(n) // len(v)) * 0.37 + k))
    return np.stack(cols, 1).astype(w["dtype"])


def prepare(case, d, g=None):
    """Geometry with its mesh, the points the solution belongs to and the mesh's cells."""
    import meshio

    if case["internal"]:
        g = g or build.geometry("internal", d, case["tx"], case["ty"])
        make(g, case)
        f = os.path.join(d, "internal.vtk")
        need(os.path.exists(f), "internal.vtk was not written")
        v = meshio.read(f)
        return g, v.points[:, :2], {"triangle": v.cells_dict["triangle"]}
    g, _ = load(case, d, g, case["name"])
    return g, np.array(case["mesh"]["nodes"]), {"quad": np.array(case["mesh"]["cells"])}


def c_write(case, ctx):
    import meshio

    d, sub = ctx.tmp(), ctx.tmp()
    g, N, cells = prepare(case, d)
    expected = {}
    for w in case["writes"]:
        if "remesh" in w:
            for f in ("internal.vtk", "external.vtk"):  # the mesh's own file is written again
                expected.pop(os.path.join(d, f), None)
            _, N, cells = prepare(dict(w["remesh"], internal=case["internal"]), d, g)
            continue
        S = field(w, len(N))
        S0 = S.copy()
        names = list(w["names"])
        out = sub if w["sub"] else d
        path = os.path.join(out, w["file"])
        before = open(path).read() if os.path.exists(path) else None
        if w["bad"]:
            names = names + ["more"] if w["bad"] > 0 else names[:-1]
            try:
                g.write_vtk(S, out, w["file"], names)
            except ValueError:
                now = open(path).read() if os.path.exists(path) else None
                need(now == before, "a rejected write changed the output file")
                continue
            except Exception as e:
                fail(f"{S.shape[1]} columns and {len(names)} names: {type(e).__name__}, expected ValueError")
            fail(f"{S.shape[1]} columns with {len(names)} names were accepted")
        with sut("write_vtk"):
            g.write_vtk(S, out, w["file"], names)
        need(np.array_equal(S, S0, equal_nan=True), "the solution array was changed")
        expected[path] = (w["names"], S0, N, cells)
    for path, (names, S, N, cells) in expected.items():
        need(os.path.exists(path), f"{os.path.basename(path)} was not written")
        try:
            v = meshio.read(path)
        except BaseException as e:
            fail(f"the written file cannot be read: {type(e).__name__} {str(e)[:200]}")
        close(v.points[:, :2], N, 1e-12, "points in the written file", np.abs(N).max())
        for kind, c in cells.items():
            got = v.cells_dict.get(kind)
            need(got is not None and np.array_equal(got, c), f"the {kind} cells in the written file differ from the mesh")
        need(sorted(v.point_data) == sorted(names), lambda: f"fields {sorted(v.point_data)} in the file, expected {sorted(names)}")
        for k, nm in enumerate(names):
            col = S[:, k].astype(np.float64)
            got = np.asarray(v.point_data[nm], dtype=np.float64).reshape(-1)
            need(got.shape == col.shape, lambda: f"field {nm} has {len(got)} values, expected {len(col)}")
            usual = np.isfinite(col)
            need(np.array_equal(got[~usual], col[~usual], equal_nan=True), lambda: f"field {nm}: {got[~usual][:5]} where the solution is {col[~usual][:5]}")
            close(got[usual], col[usual], 2e-7, f"field {nm}", np.abs(col[usual]) + 1e-37)
    return {"internal": case["internal"], "writes": len(case["writes"]), "remesh": any("remesh" in w for w in case["writes"]), "nontrivial": bool(expected)}


FACETS = [
    Facet("external", lambda: s_write(False), c_write, 800, rule="solutions on meshes read from files, 1-4 named fields, 1-3 writes (other or same file), wrong number of names rejected without touching the file; in a quarter of the cases the geometry gets another mesh in between; read back with meshio; non-trivial: something was written"),
    Facet("internal", lambda: s_write(True), c_write, 320, rule="as external, on the triangulation of an internal rectangle"),
    Facet("large", s_large, c_large, 16, rule="meshes and triangulations of 4000-26000 points"),
]
