"""O01: plots and tables show the data they are given and end up in the right place."""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

import build
import gen
from engine import Facet, arr, close, need, sut


class Recorder:
    """Records the contents of every figure when it is saved, and saves it small."""

    def __enter__(self):
        from matplotlib.figure import Figure

        self.figs = []
        self.cls, self.old = Figure, Figure.savefig
        rec = self

        def savefig(fig, fname, *a, **kw):
            rec.figs.append(
                {
                    "file": os.path.realpath(str(fname)),
                    "lines": [np.array(l.get_xydata(), dtype=float) for ax in fig.axes for l in ax.get_lines()]
                    + [np.array(s, dtype=float) for ax in fig.axes for c in ax.collections if hasattr(c, "get_segments") for s in c.get_segments()]
                    + [np.array(p.get_xy(), dtype=float) for ax in fig.axes for p in ax.patches if hasattr(p, "get_xy") and np.ndim(p.get_xy()) == 2],
                    "labels": [t.get_text() for ax in fig.axes if ax.get_legend() for t in ax.get_legend().get_texts()],
                    "line_labels": [(l.get_label(), np.array(l.get_ydata(), dtype=float)) for ax in fig.axes for l in ax.get_lines()],
                    "points": np.concatenate([np.zeros((0, 2))] + [np.asarray(c.get_offsets(), dtype=float) for ax in fig.axes for c in ax.collections if len(np.shape(c.get_offsets())) == 2 and type(c).__name__ == "PathCollection"]),
                    "polys": [(np.array(p.get_xy(), dtype=float), tuple(p.get_facecolor())) for ax in fig.axes for p in ax.patches if hasattr(p, "get_xy") and np.ndim(p.get_xy()) == 2],
                    "contours": [([float(v) for v in c.levels], [np.array(p.vertices, dtype=float) for p in c.get_paths()]) for ax in fig.axes for c in ax.collections if type(c).__name__ == "QuadContourSet"],
                    "titles": [ax.get_title() for ax in fig.axes],
                    "scale": [(ax.get_xscale(), ax.get_yscale()) for ax in fig.axes],
                    "axis": [(ax.get_xlabel(), ax.get_ylabel()) for ax in fig.axes],
                }
            )
            kw["dpi"] = 20
            return rec.old(fig, fname, *a, **kw)

        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.old

    def one(self, path):
        f = [x for x in self.figs if x["file"] == os.path.realpath(path)]
        need(f, lambda: f"{os.path.basename(path)} was not saved (saved: {[os.path.basename(x['file']) for x in self.figs]})")
        need(os.path.exists(path) and os.path.getsize(path) > 0, f"{os.path.basename(path)} does not exist")
        with open(path, "rb") as fh:
            head = fh.read(8)
        if path.endswith(".png"):
            need(head == b"\x89PNG\r\n\x1a\n", f"{os.path.basename(path)} is not a PNG image")
        return f[-1]


def drawn(fig, y, x=None, what="curve", tol=None):
    y = np.asarray(y, dtype=float)
    x = np.arange(len(y)) if x is None else np.asarray(x, dtype=float)
    ok = any(l.shape == (len(y), 2) and np.allclose(l[:, 0], x, rtol=1e-12, atol=0) and np.all(np.abs(l[:, 1] - y) <= (1e-12 * np.abs(y) if tol is None else tol)) for l in fig["lines"])
    need(ok, f"{what}: no line of the plot shows the given data")


def field(fig, X, Y, Z):
    """The filled regions of the contour plot lie where the field has the values of their levels, and cover the data.
    Corners of the regions lie on grid lines, where linear interpolation between the grid points is exact."""
    from scipy.interpolate import RegularGridInterpolator

    need(len(fig["contours"]) == 1, "the plot does not contain one filled contour set")
    levels, paths = fig["contours"][0]
    f = RegularGridInterpolator((Y[:, 0], X[0]), Z, bounds_error=False, fill_value=None)
    span, tol = np.ptp(Z), 1e-6 * (np.abs(Z).max() + np.ptp(Z))
    need(len(paths) == len(levels) - 1, "contour levels")
    need(levels[0] <= Z.min() + tol and levels[-1] >= Z.max() - tol, lambda: f"levels {levels[0]}..{levels[-1]} do not cover the values {Z.min()}..{Z.max()}")
    need(max(np.diff(levels)) <= span / 10, "the levels are coarse")
    allv = np.concatenate([v for v in paths if len(v)] or [np.zeros((0, 2))])
    need(len(allv) > 0, "nothing is filled")
    box, want = np.r_[allv.min(0), allv.max(0)], np.r_[X.min(), Y.min(), X.max(), Y.max()]
    need(np.all(np.abs(box - want) <= 1e-6 * (np.abs(want).max() + 1)), lambda: f"the filled area is {box}, the data cover {want}")
    for lo, hi, v in zip(levels[:-1], levels[1:], paths):
        if len(v):
            z = f(v[:, ::-1])
            need(np.all((z >= lo - tol) & (z <= hi + tol)), lambda: f"the region of values {lo}..{hi} covers values {z.min()}..{z.max()}")


word = st.text("abcdefghij_XYZ0123456789", min_size=1, max_size=10)
# file names as they are in use: with dots, blanks, dashes
filename = gen.few(word, st.tuples(word, st.sampled_from([".", "_0.", " ", "-", "=1e-3,", ".png."]), word).map("".join), 3)
curve = st.tuples(
    st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(60, 3000), st.integers(3000, 20000)), st.integers(0, 10**6), st.sampled_from(["f8", "f8", "i8", "f4", "signed"])
).map(list)


def data(c):
    """Positive data of very different magnitudes; whole numbers as an integer array."""
    r = np.random.RandomState(c[1])
    if c[2] == "i8":
        return r.randint(1, [10, 10**6][c[1] % 2], c[0])
    if c[2] == "signed":
        return np.exp(r.randn(c[0]) * 3) * r.randint(-1, 2, c[0])
    return np.exp(r.randn(c[0]) * 3).astype(c[2])


KINDS = ["loss", "array", "multi", "inverse_test", "test", "test_prefix", "time"]


@st.composite
def s_plot(draw, kinds=KINDS):
    k = draw(st.sampled_from(list(kinds)))
    return {
        "k": k,
        "c": [draw(curve) for _ in range(draw(st.one_of(st.integers(1, 4), st.integers(1, 16))) if k == "multi" else 1)],
        "name": draw(filename),
        "title": draw(word),
        "xl": draw(st.one_of(st.none(), word)),
        "yl": draw(st.one_of(st.none(), word)),
        "v": draw(st.one_of(gen.frac(-4, 4), st.integers(-4, 4))),
        "list": draw(st.booleans()),
        "sub": draw(st.booleans()),
        "grid": [draw(st.integers(2, 6)), draw(st.integers(2, 6))],
        "same": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 2), min_size=1, max_size=4))),  # labels may occur more than once
    }


def c_plot(case, ctx):
    import matplotlib.pyplot as plt

    out = ctx.tmp()
    if case["sub"]:
        out = os.path.join(out, "out dir v0.2")
        os.makedirs(out)
    mine = None
    if case.get("open"):  # a figure of the user's own
        mine = plt.figure()
        plt.plot([1.0, 2.0, 4.0])
    for other in case.get("earlier", []):
        plot_once(other, out)
    lab = plot_once(case, out)
    if mine is not None:
        ax = mine.axes
        need(len(ax) == 1 and len(ax[0].get_lines()) == 1 and not ax[0].collections and not ax[0].patches, "something was drawn into another figure of the user")
    return dict(lab, earlier=len(case.get("earlier", [])))


def plot_once(case, out):
    from fastvpinns.utils import plot_utils as P

    ys = [data(c) for c in case["c"]]
    y = ys[0]
    give = (lambda a: a.tolist()) if case["list"] else (lambda a: a)
    k, name = case["k"], case["name"]
    before = set(os.listdir(out))
    with Recorder() as r:
        if k == "loss":
            with sut("plot_loss_function"):
                P.plot_loss_function(give(y), out)
            files = ["loss_function.png"]
        elif k == "array":
            kw = {a: b for a, b in (("x_label", case["xl"]), ("y_label", case["yl"])) if b is not None}
            with sut("plot_array"):
                P.plot_array(give(y), out, name, case["title"], **kw)
            files = [name + ".png"]
        elif k == "multi":
            labels = [f"L{case['same'][i % len(case['same'])]}{case['title']}" if case.get("same") else f"L{i}{case['title']}" for i in range(len(ys))]
            kw = {} if case["xl"] is None else {"x_label": case["xl"]}
            with sut("plot_multiple_loss_function"):
                P.plot_multiple_loss_function([give(a) for a in ys], out, name, labels, case["yl"] or "Loss", case["title"], **kw)
            files = [name + ".png"]
        elif k == "inverse_test":
            with sut("plot_inverse_test_loss_function"):
                P.plot_inverse_test_loss_function(give(y), out)
            files = ["test_inverse_loss_function.png"]
        elif k == "test":
            with sut("plot_test_loss_function"):
                P.plot_test_loss_function(give(y), out)
            files = ["test_loss_function.png"]
        elif k == "test_prefix":
            with sut("plot_test_loss_function"):
                P.plot_test_loss_function(give(y), out, name)
            files = [name + "_test_loss_function.png"]
        elif k == "time":
            t = np.cumsum(y, dtype=np.float64) + 1e-3
            with sut("plot_test_time_loss_function"):
                P.plot_test_time_loss_function(give(t), give(y), out)
            files = ["test_time_loss_function.png"]
        elif k == "contour":
            nx, ny = case["grid"]
            rs = np.random.RandomState(case["c"][0][1])
            X, Y = np.meshgrid(case["v"] + np.cumsum(0.1 + rs.rand(nx)), np.cumsum(0.1 + rs.rand(ny)) * 3)
            Z = rs.randn(*X.shape) * 10.0 ** rs.randint(-3, 4)
            with sut("plot_contour"):
                P.plot_contour(X, Y, Z, out, name, case["title"])
            files = [name + ".png"]
        else:
            with sut("plot_inverse_param_function"):
                P.plot_inverse_param_function(give(y), case["title"], case["v"], out, name)
            files = [name + ".png", name + "_absolute_error.png"]
        figs = [r.one(os.path.join(out, f)) for f in files]
    new = set(os.listdir(out)) - before
    need(new <= set(files) and set(files) <= new | before, lambda: f"files written: {sorted(set(os.listdir(out)) - before)}, expected {files}")
    if k != "contour":
        n = len(ys) if k == "multi" else 1
        for f in figs[:1]:
            have = [v for s, v in f["line_labels"] if len(v) > 2 or len(v) == len(y)]
            need(len(have) <= n + (2 if k == "inverse_param" else 0), lambda: f"{len(have)} curves are drawn, {n} were given")
    if k == "multi":
        for a, l in zip(ys, labels):
            drawn(figs[0], a, None, l)
            need(any(s == l and len(v) == len(a) and np.allclose(v, a) for s, v in figs[0]["line_labels"]), f"the curve {l} does not have its label")
            need(figs[0]["labels"].count(l) == labels.count(l), f"{l} is {figs[0]['labels'].count(l)} times in the legend, expected {labels.count(l)}")
    elif k == "time":
        drawn(figs[0], y, t)
    elif k == "inverse_param":
        e = np.abs(np.asarray(y, dtype=np.float64) - case["v"])
        need(len(figs[1]["lines"]) > 0, "the error plot is empty")
        drawn(figs[0], y, None, "predicted values")
        tol = (1e-6 if case["c"][0][2] == "f4" else 1e-13) * (np.abs(np.asarray(y, dtype=np.float64)) + abs(case["v"]))
        drawn(figs[1], e, None, "absolute error", tol)
    elif k != "contour":
        drawn(figs[0], y)
    if k == "contour":
        field(figs[0], X, Y, Z)
    if k in ("array", "multi", "contour"):
        need(case["title"] in figs[0]["titles"], "the title is missing")
    if k in ("loss", "array", "multi", "test", "test_prefix", "inverse_test"):
        need(figs[0]["scale"][0][1] == "log", "the losses are not on a logarithmic scale")
    if k == "array":
        a = figs[0]["axis"][0]
        need(a == (case["xl"] or "Epochs", case["yl"] or "Loss"), lambda: f"axis labels {a}")
    return {"kind": k, "type": case["c"][0][2]}


def big_mesh():
    return st.tuples(st.integers(8, 20), st.integers(8, 12)).flatmap(lambda t: gen.mesh(t[0], t[1], exact=True))


@st.composite
def s_mesh(draw, large=False):
    m = draw(big_mesh() if large else gen.mesh(3, 2))
    n = draw(st.integers(1, 40)) if draw(st.booleans()) else draw(st.integers(1, 5))
    tags = draw(st.lists(st.integers(0, 5000), min_size=n, max_size=n, unique=True))
    return {"mesh": m, "sp": draw(gen.fespec(m["kind"], 2, 4)), "bd": [[t, draw(st.integers(1, 4))] for t in tags], "cols": draw(st.sampled_from([2, 2, 3])), "twice": draw(st.booleans())}


def c_mesh(case, ctx):
    """The mesh plot: all cells, quadrature points and boundary points; the totals are those of the problem."""
    out = ctx.tmp()
    m, sp = case["mesh"], case["sp"]
    r = np.random.RandomState(len(case["bd"]))
    C = gen.cell_coords(m)
    lo, hi = C.min((0, 1)), C.max((0, 1))
    bd = {}
    for t, n in case["bd"]:
        p = lo + r.rand(n, 2) * (hi - lo)
        bd[t] = p if case["cols"] == 2 else np.hstack([p, np.zeros((n, 1))])
    with Recorder() as rec:
        s = build.space(m, sp, bd=bd, out=out, plot=True)
        if case["twice"]:
            with sut("generate_plot"):
                s.generate_plot(out)
        png, svg = rec.one(os.path.join(out, "mesh.png")), rec.one(os.path.join(out, "mesh.svg"))
    nq = sp["q"] ** 2
    nb = sum(n for _, n in case["bd"])
    need(s.total_dofs == nq * len(C), lambda: f"total_dofs {s.total_dofs}, there are {nq * len(C)} quadrature points")
    need(s.total_boundary_dofs == nb, lambda: f"total_boundary_dofs {s.total_boundary_dofs}, there are {nb} boundary points")
    tol = 1e-9 * np.abs(C).max() + 1e-12
    pts = png["points"]
    for i in range(len(C)):
        q = np.asarray(s.get_quadrature_actual_coordinates(i))
        d = np.abs(q[:, None] - pts[None]).max(-1).min(1)
        need(np.all(d <= tol), f"quadrature points of cell {i} are missing in the plot")
    for t, p in bd.items():
        d = np.abs(p[:, None, :2] - pts[None]).max(-1).min(1)
        need(np.all(d <= tol), f"points of boundary {t} are missing in the plot")
        need(any(str(t) in l for l in png["labels"]), f"boundary {t} is not in the legend")
    A = np.concatenate([np.zeros((0, 2))] + [l[:-1] for l in png["lines"] if len(l) > 1])
    B = np.concatenate([np.zeros((0, 2))] + [l[1:] for l in png["lines"] if len(l) > 1])
    for i, c in enumerate(C):
        # the four edges of the cell are drawn
        for k in range(4):
            a, b = c[k], c[(k + 1) % 4]
            ok = np.any((np.abs(A - a).max(1) <= tol) & (np.abs(B - b).max(1) <= tol)) or np.any((np.abs(A - b).max(1) <= tol) & (np.abs(B - a).max(1) <= tol))
            need(ok, f"edge {k} of cell {i} is not drawn")
    return {"tags": min(len(bd), 20), "cells": len(C)}


@st.composite
def s_adaptive(draw, large=False):
    m = draw(big_mesh() if large else gen.mesh(3, 3))
    n = len(m["cells"])
    return {"mesh": m, "loss": [draw(gen.frac(0, 5)) for _ in range(n)], "epoch": draw(st.integers(0, 10**6)), "name": draw(st.one_of(st.none(), filename)), "kind": draw(st.sampled_from(["internal", "external"]))}


def c_adaptive(case, ctx):
    out = ctx.tmp()
    g = build.geometry(case["kind"], out)
    C = gen.cell_coords(case["mesh"])
    kw = {} if case["name"] is None else {"filename": case["name"]}
    L = np.array(case["loss"])
    with Recorder() as rec:
        with sut("plot_adaptive_mesh"):
            g.plot_adaptive_mesh(C, L, case["epoch"], **kw)
        f = rec.one(os.path.join(out, f"{case['name'] or 'cell_residual'}_{case['epoch']}.png"))
    tol = 1e-9 * np.abs(C).max() + 1e-12
    col = []
    for i, c in enumerate(C):
        hit = [k for p, k in f["polys"] if len(p) >= 4 and all(np.abs(p - v).max(1).min() <= tol for v in c) and all(np.abs(c - v).max(1).min() <= tol for v in p)]
        need(hit, f"cell {i} is not filled in the plot")
        col.append(hit[-1])
    for i in range(len(C)):
        for j in range(i):
            if L[i] == L[j]:
                need(col[i] == col[j], f"cells {j} and {i} have the same residual and different colours")
            elif abs(L[i] - L[j]) > 0.1 * np.ptp(L):
                need(col[i] != col[j], f"cells {j} and {i} have residuals {L[j]} and {L[i]} and the same colour")
    return {"cells": len(C), "nontrivial": len(C) > 1 and np.ptp(L) > 0}


@st.composite
def s_table(draw):
    n = draw(st.integers(0, 8))
    val = st.one_of(gen.frac(-100, 100, 10**6).map(float), st.integers(-10**6, 10**6), word, st.booleans())
    return {"title": draw(word), "cols": ["A" + draw(word), "B" + draw(word)], "rows": [["r" + draw(word), draw(val)] for _ in range(n)]}


def c_table(case, ctx):
    from fastvpinns.utils.print_utils import print_table

    buf = io.StringIO()
    old = os.environ.get("COLUMNS")
    os.environ["COLUMNS"] = "300"
    try:
        with contextlib.redirect_stdout(buf):
            with sut("print_table"):
                print_table(case["title"], case["cols"], [r[0] for r in case["rows"]], [r[1] for r in case["rows"]])
    finally:
        if old is None:
            del os.environ["COLUMNS"]
        else:
            os.environ["COLUMNS"] = old
    text = buf.getvalue()
    need(case["title"] in text and all(c in text for c in case["cols"]), "title or column names are missing")
    lines = [[w for w in l.replace("|", "│").split("│") if w.strip()] for l in text.splitlines()]
    rows = [[w.strip() for w in l] for l in lines if len(l) == 2]
    want = [[k, f"{v:.4f}" if isinstance(v, float) else str(v)] for k, v in case["rows"]]
    need(rows == want, lambda: f"rows {rows}, expected {want}")
    return {"rows": len(want), "nontrivial": len(want) > 0}


@st.composite
def s_sequence(draw):
    c = draw(s_plot(KINDS + ["inverse_param"]))
    c["earlier"] = []
    for _ in range(draw(st.integers(1, 3))):
        e = draw(st.one_of(s_plot([c["k"]]), s_plot([c["k"]]), s_plot(KINDS + ["inverse_param"])))
        if draw(st.booleans()):
            e["name"] = c["name"]
        c["earlier"].append(e)
    c["open"] = draw(st.booleans())
    return c


FACETS = [
    Facet("sequence", s_sequence, c_plot, 96, rule="2-4 plots one after the other in the same process and folder, under the same or other names, in half of the cases with a figure of the user's open: each shows its own data and nothing else"),
    Facet("contour", lambda: s_plot(["contour"]), c_plot, 96, rule="contour plots of random fields on random grids: every filled region lies where the field has the values of its level, all data are covered"),
    Facet("parameter-curves", lambda: s_plot(["inverse_param"]), c_plot, 160, rule="curves of estimated parameters (floats, integers, lists) and their absolute errors against the known value"),
    Facet("curves", lambda: s_plot(), c_plot, 280, rule="all plotting helpers with random curves, names, labels, output folders: the right files, and the saved figures contain the given data, labels and scales"),
    Facet("mesh-plot", s_mesh, c_mesh, 96, rule="mesh plot with 1-40 boundary tags: files, all cells, points and tags drawn, totals"),
    Facet("large-plots", lambda: st.one_of(s_mesh(True), s_adaptive(True)), lambda c, x: (c_mesh if "bd" in c else c_adaptive)(c, x), 24, rule="mesh and residual plots of 64-240 cells"),
    Facet("cell-residuals", s_adaptive, c_adaptive, 96, rule="per-cell residual plot: file name, every cell filled, colour follows the residual; non-trivial: several different residuals"),
    Facet("table", s_table, c_table, 800, rule="tables of 0-8 rows of floats, integers, words: printed rows equal the given ones, floats with four decimals"),
]
