"""Builders: objects of the code under test made from JSON cases, and the independent reference for assembled data."""
import os

import numpy as np

import gen
import ref
from engine import fail, sut


class PlainMesh:
    """All the library needs of a mesh object: its points."""

    def __init__(self, points):
        self.points = np.asarray(points, dtype=np.float64)


def points3(m):
    p = np.array(m["nodes"], dtype=np.float64)
    return np.hstack([p, np.zeros((len(p), 1))])


def meshio_mesh(m):
    import meshio

    return meshio.Mesh(points=points3(m), cells=[("quad", np.array(m["cells"], dtype=int))])


def boundary(m, k=2):
    """Boundary points by tag, from the mesh's edges: k+1 equidistant points per edge."""
    n = np.array(m["nodes"], dtype=np.float64)
    out = {}
    for a, b, t in m["edges"]:
        out.setdefault(t, []).append(np.linspace(n[a], n[b], k + 1))
    return {t: np.unique(np.vstack(v), axis=0) for t, v in out.items()}


def zero(x, y):
    return 0.0 * x


def space(m, sp, forcing=zero, bd=None, funcs=None, conds=None, out=".", plot=False, coords=None, mesh=None):
    """Fespace2D on the mesh; sp: {fe, n, rule, q, trafo}."""
    from fastvpinns.FE.fespace2d import Fespace2D

    c = gen.cell_coords(m) if coords is None else coords
    bd = boundary(m) if bd is None else bd
    funcs = {t: zero for t in bd} if funcs is None else funcs
    conds = {t: "dirichlet" for t in bd} if conds is None else conds
    with sut("creating the finite element space"):
        return Fespace2D(
            mesh=meshio_mesh(m) if mesh is None else mesh,
            cells=c,
            boundary_points=bd,
            cell_type=sp.get("cell_type", "quadrilateral"),
            fe_order=sp["n"],
            fe_type=sp["fe"],
            quad_order=sp["q"],
            quad_type=sp["rule"],
            fe_transformation_type=sp["trafo"],
            bound_function_dict=funcs,
            bound_condition_dict=conds,
            forcing_function=forcing,
            output_path=out,
            generate_mesh_plot=plot,
        )


class RefCell:
    """What a cell's matrices must be, from the definitions, with the quadrature points in our own order."""

    def __init__(self, v, sp):
        self.v = np.asarray(v, dtype=np.float64)
        n, q = sp["n"], sp["q"]
        xi, eta, w = ref.rule2d(sp["rule"], q)
        self.xi, self.eta, self.w = xi, eta, w
        self.x, self.y = ref.qmap(self.v, xi, eta)
        xx, xe, yx, ye = ref.qjac(self.v, xi, eta)
        det = xx * ye - xe * yx
        self.det = det
        self.mult = w * np.abs(det)
        P, sp0 = ref.basis2d(sp["fe"], n, xi, eta, "value")
        Gx, sx = ref.basis2d(sp["fe"], n, xi, eta, "gradx")
        Gy, sy = ref.basis2d(sp["fe"], n, xi, eta, "grady")
        self.phi, self.gx_ref, self.gy_ref = P, Gx, Gy
        self.phi_scale, self.gx_ref_scale, self.gy_ref_scale = sp0, sx, sy
        s = np.sign(det) * w
        self.val = P * self.mult
        self.gx = (ye * Gx - yx * Gy) * s
        self.gy = (-xe * Gx + xx * Gy) * s
        self.val_scale = sp0 * self.mult.max()
        L = max(np.abs(a).max() for a in (xx, xe, yx, ye))
        self.g_scale = (sx + sy) * L * w.max()
        self.size = ref.diam(self.v)
        self.far = np.abs(self.v).max()

    def order(self, pts):
        """Index of our quadrature point for each of the given (actual) points."""
        tol = 1e-10 * (self.size + 1e-3 * self.far)
        idx = ref.match_points(pts, np.stack([self.x, self.y], 1), tol)
        if idx is None:
            fail("the quadrature points of a cell are not the images of the rule's points")
        return idx


def write_medit(path, m, opt):
    """Our own writer for Medit (.mesh) files.

    opt: dim (2|3), order (permutation of the block letters E, Q, V kept valid by the caller),
    refs (references of vertices and cells), oneline (keyword style), extra (blocks which readers skip).
    """
    dim = opt.get("dim", 3)
    L = ["MeshVersionFormatted 2", ""]
    L += [f"Dimension {dim}"] if opt.get("oneline") else ["Dimension", str(dim)]
    vref, cref = opt.get("vref", 0), opt.get("cref", 0)
    blocks = {}
    P = [
        " ".join([f"{x:.17g}", f"{y:.17g}"] + (["0"] if dim == 3 else []) + [str(vref if vref >= 0 else i + 1)])
        for i, (x, y) in enumerate(m["nodes"])
    ]
    blocks["V"] = ["Vertices", str(len(P))] + P
    E = [f"{a + 1} {b + 1} {t}" for a, b, t in m["edges"]]
    blocks["E"] = ["Edges", str(len(E))] + E
    Q = [" ".join(str(k + 1) for k in c) + f" {cref if cref >= 0 else i + 1}" for i, c in enumerate(m["cells"])]
    blocks["Q"] = ["Quadrilaterals", str(len(Q))] + Q
    for b in opt.get("order", "VEQ"):
        if opt.get("comment"):
            L.append("# block")
        L += [""] + blocks[b]
    L += ["", "End", ""]
    with open(path, "w") as f:
        f.write("\n".join(L))
    return path


def geometry(kind, out, nx=3, ny=3, opt=False):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D

    with sut("creating the geometry"):
        return Geometry_2D("quadrilateral", kind, nx, ny, out, is_optimized=opt) if opt is not None else Geometry_2D("quadrilateral", kind, nx, ny, out)


def read(g, path, level=1, method="uniform", ref_level=1):
    with sut("read_mesh"):
        return g.read_mesh(path, level, method, refinement_level=ref_level)


def ccw_cell(c):
    """Signed area > 0 and all corners convex."""
    d = np.roll(c, -1, axis=0) - c
    e = np.roll(d, -1, axis=0)
    return np.all(d[:, 0] * e[:, 1] - d[:, 1] * e[:, 0] > 0)


def same_cycle(a, b, tol):
    """Whether two vertex lists are equal up to the first vertex."""
    return any(np.abs(np.roll(a, k, axis=0) - b).max() <= tol for k in range(4))
