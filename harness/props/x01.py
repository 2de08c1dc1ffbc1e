"""X01: the example programs of the repository run under generated settings and write what the library computed."""
import importlib.util
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import build
import gen
import net
import ref
from engine import REPO, Facet, arr, close, fail, need, sut

EX = os.path.join(REPO, "examples")
F = "forward_problems_2d/"
I = "inverse_problems_2d/"
# directory, program, problem module, equation, model, geometry, tags
PROGRAMS = {
    "poisson": (F + "uniform_mesh/poisson_2d", "main_poisson2d.py", "sin_cos", "poisson", "dense", "internal"),
    "helmholtz": (F + "uniform_mesh/helmholtz_2d", "main_helmholtz.py", "helmholtz_example", "helmholtz", "dense", "internal"),
    "hard": (F + "hard_boundary_constraints/poisson_2d", "main_poisson2d_hard.py", "sin_cos", "poisson", "hard", "internal"),
    "poisson-mesh": (F + "complex_mesh/poisson2d", "main_poisson2d.py", "sin_cos", "poisson", "dense", "external"),
    "usa": (F + "complex_mesh/USA", "main_poisson2d.py", "sin_cos", "poisson", "dense", "external"),
    "cd2d": (F + "complex_mesh/cd2d", "main_cd2d.py", "cd2d_example", "cd2d", "dense", "external"),
    "gear": (F + "complex_mesh/cd2d_gear", "main_gear_cd2d.py", "cd2d_gear_example", "cd2d", "dense", "external"),
    "helmholtz-mesh": (F + "complex_mesh/helmholtz2d", "main_helmholtz.py", "helmholtz_example", "helmholtz", "dense", "external"),
    "inverse": (I + "const_inverse_poisson2d", "main_inverse.py", "inverse_uniform", "poisson_inverse", "inverse", "internal"),
    "inverse-usa": (I + "domain_inverse_cd2d/USA", "main_inverse_domain_usa.py", "cd2d_inverse_usa_example", "cd2d_inverse_domain", "domain", "external"),
    "inverse-circle": (I + "domain_inverse_cd2d/circle", "main_inverse_domain_circle.py", "cd2d_inverse_circle_example", "cd2d_inverse_domain", "domain", "external"),
    "optuna": ("optuna_examples", "main.py", "sin_cos", "poisson", "dense", "internal"),
}
DATA_FILE = ("gear", "inverse-circle")  # the exact solution comes from a file

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "known_findings.json")) as _f:
    KNOWN = {(k["program"], k["aspect"]) for k in json.load(_f)["findings"] if k["property"] == "X01"}


def known(name, aspect, exactly):
    """Whether this is a finding listed in known_findings.json, failing in exactly the way described there."""
    return (name, aspect) in KNOWN and exactly

DRIVER = r'''
import functools, importlib, inspect, json, os, runpy, sys
import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib.axes import Axes
from matplotlib.figure import Figure
here = os.path.realpath(os.getcwd())
sys.path.insert(0, here)
plots, tables, models = {}, [], []
contourf, savefig = Axes.contourf, Figure.savefig
def my_contourf(self, *a, **k):
    if len(a) >= 3:
        self.figure._vp = [np.array(v, dtype=float) for v in a[:3]]
    return contourf(self, *a, **k)
def my_savefig(self, name, *a, **k):
    if getattr(self, "_vp", None):
        plots[os.path.splitext(os.path.basename(str(name)))[0]] = [v.tolist() for v in self._vp]
    return savefig(self, name, *a, **dict(k, dpi=20))
Axes.contourf, Figure.savefig = my_contourf, my_savefig
import fastvpinns.utils.print_utils as pu
table = pu.print_table
@functools.wraps(table)
def my_table(*a, **k):
    b = inspect.signature(table).bind(*a, **k).arguments
    tables.append([v if isinstance(v, str) else [float(q) if isinstance(q, (int, float, np.number)) else str(q) for q in v] for v in b.values()])
    return table(*a, **k)
pu.print_table = my_table
def record(cls):
    init = cls.__init__
    @functools.wraps(init)
    def f(self, *a, **k):
        b = inspect.signature(init).bind(self, *a, **k).arguments
        n = lambda v: np.asarray(v, dtype=float).tolist()
        d = {"class": cls.__name__, "dirichlet": [n(v) for v in b["input_tensors_list"][1:]], "sensor": [n(v) for v in b.get("sensor_list") or []]}
        models.append(d)
        init(self, *a, **k)
        d["model"] = self
    cls.__init__ = f
for m, c in (("model", "DenseModel"), ("model_hard", "DenseModel_Hard"), ("model_inverse", "DenseModel_Inverse"), ("model_inverse_domain", "DenseModel_Inverse_Domain")):
    record(getattr(importlib.import_module("fastvpinns.model." + m), c))
try:  # the package is not installed here and the run with a settings file does not use it
    import optuna
except ImportError:
    import types
    sys.modules["optuna"] = types.ModuleType("optuna")
import tensorflow as tf
tf.keras.utils.set_random_seed(int(sys.argv[3]))
script, conf = sys.argv[1], sys.argv[2]
sys.argv = [script, conf]
runpy.run_path(script, run_name="__main__")
for d in models:
    d["weights"] = [np.asarray(v, dtype=float).tolist() for v in d.pop("model").get_weights()]
json.dump({"plots": plots, "tables": tables, "models": models}, open("vp_record.json", "w"))
'''


def problem(name):
    """The example's problem module, under a name of its own."""
    d, _, mod = PROGRAMS[name][:3]
    path = os.path.join(EX, d, mod + ".py")
    s = importlib.util.spec_from_file_location("vp_example_" + name.replace("-", "_"), path)
    m = importlib.util.module_from_spec(s)
    with sut(f"importing {mod}"):
        s.loader.exec_module(m)
    return m


# ---- the programs --------------------------------------------------------------------------------------


@st.composite
def s_program(draw):
    name = draw(st.sampled_from(sorted(PROGRAMS)))
    geo = PROGRAMS[name][5]
    kind = PROGRAMS[name][4]
    c = {
        "name": name,
        "sp": {"fe": draw(st.sampled_from(["legendre", "jacobi", "legendre", "jacobi", "legendre_special", "chebyshev_2"])), "n": draw(st.integers(2, 5)), "rule": draw(st.sampled_from(["gauss-jacobi", "gauss-jacobi", "gauss-legendre"])), "q": draw(st.integers(3, 7)), "trafo": "bilinear"},
        "hid": draw(st.lists(st.integers(2, 9), min_size=1, max_size=3)),
        "act": draw(st.sampled_from(["tanh", "tanh", "sigmoid", "swish"])),
        "epochs": draw(st.integers(2, 6)),
        "every": draw(st.integers(1, 8)),
        "dtype": draw(st.sampled_from(["float32", "float32", "float64"])),
        "beta": draw(st.sampled_from([10, 5, 1, 2.5])),
        "lr": {"initial_learning_rate": draw(st.sampled_from([0.0, 0.0, 0.01])), "use_lr_scheduler": draw(st.booleans()), "decay_steps": draw(st.integers(1, 5)), "decay_rate": 0.9, "staircase": draw(st.booleans())},
        "test": [draw(st.integers(2, 9)), draw(st.integers(2, 9))],
        "plot": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
        "out": draw(st.sampled_from(["out", "output/a/1", "results/x y"])),
    }
    if geo == "internal":
        box = [0, 1, 0, 1] if name == "hard" else draw(st.sampled_from([[0, 1, 0, 1], [-1, 1, -1, 1], [0, 2, -1, 0], [0.25, 1, 0, 2]]))
        c["box"] = box
        c["cells"] = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
        c["nb"] = draw(st.integers(4, 60))
    else:
        c["mesh"] = draw(gen.medit(3, 3, wild=False))
        t = draw(st.lists(st.sampled_from([1000, 1001] if name == "gear" else [1000]), min_size=len(c["mesh"]["mesh"]["edges"]), max_size=len(c["mesh"]["mesh"]["edges"])))
        c["mesh"]["mesh"]["edges"] = [[a, b, k] for (a, b, _), k in zip(c["mesh"]["mesh"]["edges"], t)]
        c["level"] = draw(st.integers(0, 3))
        c["method"] = draw(st.sampled_from(["uniform", "uniform", "lhs"]))
    if kind in ("inverse", "domain"):
        c["sensors"] = draw(st.integers(1, 4) if geo == "external" else st.integers(4, 60))
    return c


def config(case):
    """The settings file of the case."""
    name = case["name"]
    kind, geo = PROGRAMS[name][4:6]
    x0, x1, y0, y1 = case.get("box", [0, 1, 0, 1])
    nx, ny = case.get("cells", [2, 2])
    sp = case["sp"]
    return {
        "experimentation": {"output_path": case["out"]},
        "geometry": {
            "mesh_generation_method": geo,
            "generate_mesh_plot": case["plot"],
            "internal_mesh_params": {"x_min": x0, "x_max": x1, "y_min": y0, "y_max": y1, "n_cells_x": nx, "n_cells_y": ny, "n_boundary_points": case.get("nb", 20), "n_test_points_x": case["test"][0], "n_test_points_y": case["test"][1]},
            "exact_solution": {"exact_solution_generation": "external" if name in DATA_FILE else "internal", "exact_solution_file_name": "data.csv"},
            "mesh_type": "quadrilateral",
            "external_mesh_params": {"mesh_file_name": "generated.mesh", "boundary_refinement_level": case.get("level", 1), "boundary_sampling_method": case.get("method", "uniform")},
        },
        "fe": {"fe_order": sp["n"], "fe_type": sp["fe"], "quad_order": sp["q"], "quad_type": sp["rule"]},
        "pde": {"beta": case["beta"]},
        "model": {"model_architecture": [2] + case["hid"] + [2 if kind == "domain" else 1], "activation": case["act"], "use_attention": False, "epochs": case["epochs"], "dtype": case["dtype"], "set_memory_growth": False, "learning_rate": case["lr"]},
        "logging": {"update_progress_bar": 1, "update_console_output": case["every"], "update_solution_images": case["every"]},
        "inverse": {"num_sensor_points": case.get("sensors", 1), "sensor_data_file": "data.csv"},
    }


def launch(case, d):
    """Run the program in a copy of its directory; returns what the driver recorded."""
    import shutil

    import yaml

    name = case["name"]
    ex, main = PROGRAMS[name][:2]
    w = os.path.join(d, "w")
    os.makedirs(w)
    for f in os.listdir(os.path.join(EX, ex)):
        if f.endswith(".py"):
            shutil.copy(os.path.join(EX, ex, f), w)
    with open(os.path.join(w, "settings.yaml"), "w") as f:
        yaml.safe_dump(config(case), f)
    data = None
    if "mesh" in case:
        m = case["mesh"]["mesh"]
        build.write_medit(os.path.join(w, "generated.mesh"), m, case["mesh"]["opt"])
        P = np.array(m["nodes"])
        data = np.c_[P, np.sin(3 * P[:, 0]) + P[:, 1] + 1.5]
        with open(os.path.join(w, "data.csv"), "w") as f:
            f.write("\n".join(",".join(repr(float(v)) for v in r) for r in data) + "\n")
    env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND="Agg")
    p = subprocess.run([sys.executable, "-c", DRIVER, main, "settings.yaml", str(case["seed"])], cwd=w, env=env, capture_output=True, text=True, timeout=220, stdin=subprocess.DEVNULL)
    if p.returncode:
        fail(f"{ex}/{main} ends with status {p.returncode}: {' / '.join(l for l in p.stderr.strip().splitlines() if 'Error' in l)[-400:]}")
    with open(os.path.join(w, "vp_record.json")) as f:
        rec = json.load(f)
    return os.path.join(w, case["out"]), rec, data


def saved_weights(path, dims, live):
    """Kernels and biases of the model the program trained, which must be the ones in the file it wrote."""
    import tensorflow as tf

    shapes = [list(s) for a, b in zip(dims[:-1], dims[1:]) for s in ((a, b), (b,))]
    W = [np.asarray(w, dtype=np.float64) for w in live]
    W = [w for w in W if w.ndim]  # the unknown coefficient is a scalar
    need([list(w.shape) for w in W] == shapes, lambda: f"the trained network has weights of shapes {[w.shape for w in W]} instead of the layers {dims}")
    with sut("reading the saved weights"):
        r = tf.train.load_checkpoint(path)
        names = r.get_variable_to_shape_map()
    for w in W:
        same = [k for k in names if list(names[k]) == list(w.shape) and np.array_equal(np.asarray(r.get_tensor(k), dtype=np.float64), w)]
        need(same, lambda: f"the saved weights do not have the trained network's weights of shape {w.shape}")
    return W


def load(path, what):
    need(os.path.exists(path), lambda: f"{what} was not written")
    return np.loadtxt(path, ndmin=1)


def grid(p, name, case):
    """Coordinates and values of a plotted grid."""
    X, Y, Z = (np.array(v) for v in p)
    need(X.shape == Y.shape == Z.shape and X.ndim == 2, lambda: f"plot {name}: shapes {X.shape}, {Y.shape}, {Z.shape}")
    ok = (np.ptp(X, axis=0).max() <= 1e-12 and np.ptp(Y, axis=1).max() <= 1e-12) or (np.ptp(X, axis=1).max() <= 1e-12 and np.ptp(Y, axis=0).max() <= 1e-12)
    # listed finding: rows and columns confused, the values still at their points
    ok = ok or known(case["name"], "plots", case["test"][0] != case["test"][1] and list(X.shape) == case["test"])
    need(ok, lambda: f"plot {name}: the coordinates given to the contour plot are not a grid")
    return np.c_[X.ravel(), Y.ravel()], Z.ravel()


HARD = lambda x, y: np.tanh(4 * np.pi * x) * np.tanh(4 * np.pi * y) * np.tanh(4 * np.pi * (x - 1)) * np.tanh(4 * np.pi * (y - 1))


def hard_d(X, h):
    """The example's boundary factor applied to (u, u_x, u_y)."""
    s = 4 * np.pi
    t = lambda z: np.tanh(s * z)
    dt = lambda z: s / np.cosh(np.clip(s * z, -300, 300)) ** 2
    x, y = X[:, :1], X[:, 1:]
    m = HARD(x, y)
    mx = t(y) * t(y - 1) * (dt(x) * t(x - 1) + t(x) * dt(x - 1))
    my = t(x) * t(x - 1) * (dt(y) * t(y - 1) + t(y) * dt(y - 1))
    u, ux, uy = h
    return m * u, mx * u + m * ux, my * u + m * uy


def on_segments(P, S, tol):
    """Whether every point lies on one of the segments (k, 2, 2)."""
    a, d = S[:, 0], S[:, 1] - S[:, 0]
    t = np.clip(np.einsum("pkj,kj->pk", P[:, None] - a[None], d) / np.maximum((d**2).sum(1), 1e-300), 0, 1)
    q = a[None] + t[..., None] * d[None]
    return np.all(np.abs(P[:, None] - q).max(-1).min(1) <= tol)


FIXED_NET = [(2, 30), (30,), (30, 30), (30,), (30, 30), (30,), (30, 1), (1,)]


def c_program(case, ctx):
    name = case["name"]
    ex, main, mod, pb, kind, geo = PROGRAMS[name]
    out, rec, data = launch(case, ctx.tmp())
    pm = problem(name)
    f64 = case["dtype"] == "float64"
    tol = 1e-9 if f64 else 3e-4
    one = 1e-10 if f64 else 3e-5
    dims = [2] + case["hid"] + [2 if kind == "domain" else 1]
    need(len(rec["models"]) == 1, lambda: f"{len(rec['models'])} models were made")
    rm = rec["models"][0]
    if known(name, "architecture", [np.shape(w) for w in rm["weights"]] == FIXED_NET):
        dims = [2, 30, 30, 30, 1]
    W = saved_weights(os.path.join(out, "model_weights"), dims, rm["weights"])

    # where the program evaluates the network
    if geo == "internal":
        x0, x1, y0, y1 = case["box"]
        nx, ny = case["test"]
        X, Y = np.meshgrid(np.linspace(x0, x1, nx), np.linspace(y0, y1, ny))
        T = np.c_[X.ravel(), Y.ravel()]
        gx, gy = np.linspace(x0, x1, case["cells"][0] + 1), np.linspace(y0, y1, case["cells"][1] + 1)
        C = np.array([[[a, c], [b, c], [b, d], [a, d]] for a, b in zip(gx[:-1], gx[1:]) for c, d in zip(gy[:-1], gy[1:])])
        S = np.array([[[x0, y0], [x1, y0]], [[x1, y0], [x1, y1]], [[x1, y1], [x0, y1]], [[x0, y1], [x0, y0]]], dtype=float)
    else:
        m = case["mesh"]["mesh"]
        T = np.array(m["nodes"], dtype=float)
        C = gen.cell_coords(m)
        S = np.array([[T[a], T[b]] for a, b, _ in m["edges"]])

    def predict(P):
        u = net.forward(W, case["act"], P)[0]
        return (hard_d(P, (u, u, u))[0] if kind == "hard" else u)

    big = sum(np.abs(w).sum() for w in W[-2:])
    u = predict(T)
    exact = data[:, 2] if name in DATA_FILE else np.asarray(pm.exact_solution(T[:, 0], T[:, 1]), dtype=float) + 0 * T[:, 0]
    got = load(os.path.join(out, "prediction.txt"), "prediction.txt").reshape(-1)
    want = u[:, 0]
    close(got, want, one, "prediction.txt at the test points, from the saved weights", big)
    close(load(os.path.join(out, "exact.txt"), "exact.txt").reshape(-1), exact, 1e-12, "exact.txt", np.abs(exact).max() + 1)
    scale = big + np.abs(exact).max()
    close(load(os.path.join(out, "error.txt"), "error.txt").reshape(-1), np.abs(want - exact), one, "error.txt", scale)
    if kind == "domain":
        act = pm.get_inverse_params_actual_dict(T[:, 0], T[:, 1])["eps"] + 0 * T[:, 0]
        close(load(os.path.join(out, "inverse_prediction.txt"), "inverse_prediction.txt"), u[:, 1], one, "inverse_prediction.txt", big)
        close(load(os.path.join(out, "inverse_error.txt"), "inverse_error.txt"), np.abs(act - u[:, 1]), one, "inverse_error.txt", big + np.abs(act).max())
    need(len(load(os.path.join(out, "time_per_epoch.txt"), "time_per_epoch.txt")) == case["epochs"], "time_per_epoch.txt does not have one entry per epoch")

    # the printed errors
    tabs = {t[0]: t for t in rec["tables"]}
    need("Error Values" in tabs, "no table of errors was printed")
    e = want - exact
    norms = {"L2": np.sqrt(np.mean(e**2)), "Linf": np.abs(e).max(), "L1": np.mean(np.abs(e))}
    den = {"L2": np.sqrt(np.mean(exact**2)), "Linf": np.abs(exact).max(), "L1": np.mean(np.abs(exact))}
    for t in rec["tables"]:
        glued = "Mean with first(s)Epochs per second" in t[2] and len(t[2]) == len(t[3]) - 1
        need(len(t[2]) == len(t[3]) or known(name, "table", glued), lambda: f"the table '{t[0]}' has {len(t[2])} labels for {len(t[3])} values")
    for lab, v in zip(*tabs["Error Values"][2:4]):
        k = [q for q in norms if q in lab]
        need(len(k) == 1, lambda: f"unexpected label {lab}")
        if "Relative" not in lab:
            close(v, norms[k[0]], one, f"printed {lab}", scale)
        elif den[k[0]] > 1e-6:
            close(v, norms[k[0]] / den[k[0]], one, f"printed {lab}", scale / den[k[0]])

    # the plots or the VTK file of the last epoch
    if geo == "internal":
        last = f"prediction_{case['epochs']}"
        for stem, fn, sc, t in (("exact_solution", lambda P: pm.exact_solution(P[:, 0], P[:, 1]), 1 + np.abs(exact).max(), 1e-12), (last, lambda P: predict(P)[:, 0], big, one), (f"error_{case['epochs']}", lambda P: np.abs(predict(P)[:, 0] - pm.exact_solution(P[:, 0], P[:, 1])), scale, one)):
            need(stem in rec["plots"], lambda: f"no plot {stem}, only {sorted(rec['plots'])}")
            P, Z = grid(rec["plots"][stem], stem, case)
            need(len(P) == len(T) and np.abs(P[np.lexsort(P.T)] - T[np.lexsort(T.T)]).max() <= 1e-12, lambda: f"plot {stem} is not over the test points")
            close(Z, np.asarray(fn(P)) + 0 * P[:, 0], t, f"values plotted in {stem}", sc)
    else:
        import meshio

        path = os.path.join(out, f"prediction_{case['epochs']}.vtk")
        need(os.path.exists(path), lambda: f"prediction_{case['epochs']}.vtk was not written")
        with sut("reading the VTK file"):
            v = meshio.read(path)
        close(v.points[:, :2], T, 1e-6, "points of the VTK file", np.abs(T).max() + 1)
        fields = {"Sol": want, "Exact": exact, "Error": np.abs(want - exact)}
        if kind == "domain":
            fields.update(Inv=u[:, 1], ExactInv=act, InvError=np.abs(act - u[:, 1]))
        need(set(fields) <= set(v.point_data), lambda: f"fields of the VTK file: {sorted(v.point_data)}")
        for k in fields:
            close(np.asarray(v.point_data[k]).reshape(-1), fields[k], one + 1e-5, f"field {k} of the VTK file", scale + 10)

    # the data given to the model
    XD, YD = (arr(v, None, "boundary data") for v in rm["dirichlet"])
    span = np.ptp(T) + np.abs(T).max()
    need(XD.ndim == 2 and len(XD) == YD.size > 0, lambda: f"boundary data of shapes {XD.shape} and {YD.shape}")
    need(on_segments(XD, S, one * span + 1e-6 * span), "the model is trained on boundary points which are not on the boundary")
    vals = np.array([np.broadcast_to(np.asarray(g(XD[:, 0], XD[:, 1]), dtype=float), (len(XD),)) for g in pm.get_boundary_function_dict().values()])
    need(np.all(np.abs(vals - YD.reshape(1, -1)).min(0) <= (1e-10 if f64 else 1e-4) * (1 + np.abs(vals).max())), "the model is trained on boundary values other than the problem's")
    R = {"XD": XD, "YD": YD.reshape(-1, 1), "XS": np.zeros((1, 2)), "YS": np.zeros((1, 1))}
    if kind in ("inverse", "domain"):
        XS, YS = (arr(v, None, "sensor data") for v in rm["sensor"])
        low = case["sensors"] if geo == "external" else case["sensors"] // 2  # the library spares a share for the boundary
        need(XS.ndim == 2 and low <= len(XS) <= case["sensors"] and YS.size == len(XS), lambda: f"sensor data of shapes {XS.shape} and {YS.shape} for {case['sensors']} sensors")
        R.update(XS=XS, YS=YS.reshape(-1, 1))
        ys = data[np.abs(T[:, None] - XS[None]).max(-1).argmin(0), 2] if name == "inverse-circle" else pm.exact_solution(XS[:, 0], XS[:, 1])
        close(YS.reshape(-1), ys, 1e-10 if f64 else 1e-5, "sensor values", 1 + 10 * np.abs(ys).max())

    # the losses: with rate zero all epochs have those of the saved weights
    L = load(os.path.join(out, "loss_function.txt"), "loss_function.txt").reshape(-1)
    need(len(L) == case["epochs"] and np.all(np.isfinite(L)), lambda: f"loss_function.txt: {L} for {case['epochs']} epochs")
    if kind == "inverse":
        E = load(os.path.join(out, "inverse_params.txt"), "inverse_params.txt").reshape(-1)
        need(len(E) == case["epochs"], "inverse_params.txt does not have one entry per epoch")
    frozen = case["lr"]["initial_learning_rate"] == 0
    if frozen:
        refs = [build.RefCell(v, case["sp"]) for v in C]
        p = {k: float(v) for k, v in pm.get_bilinear_params_dict().items()}
        R.update(
            X=np.concatenate([np.stack([r.x, r.y], 1) for r in refs]),
            V=np.array([r.val for r in refs]),
            GX=np.array([r.gx for r in refs]),
            GY=np.array([r.gy for r in refs]),
            F=np.array([r.val @ (np.asarray(pm.rhs(r.x, r.y)) + 0 * r.x) for r in refs]).T,
        )
        nc = {"kind": "dense" if kind == "hard" else kind, "pb": pb, "n": [len(C), case["sp"]["n"] ** 2, case["sp"]["q"] ** 2], "act": case["act"], "dtype": case["dtype"], "p": p, "beta": case["beta"]}
        eps = None
        if kind == "inverse":
            eps = float(pm.get_inverse_params_dict()["eps"])
            close(E, eps, one, "inverse_params.txt with learning rate zero", abs(eps))
        if kind == "hard":
            from props.p01 import residuals

            h = hard_d(R["X"], net.forward(W, case["act"], R["X"]))
            r, sc = residuals(pb, R["V"], R["GX"], R["GY"], *[k.reshape(nc["n"][0], nc["n"][2]) for k in h], R["F"], p, None)
            o, s = {"loss": (r**2).mean(1).sum()}, {"loss": 4 * (sc**2).mean(1).sum()}
        else:
            o, s = net.reference(nc, R, W, eps=eps)
        close(L, np.full(case["epochs"], o["loss"]), tol, "loss_function.txt with learning rate zero", s["loss"])
        if kind == "domain":
            Q = load(os.path.join(out, "sensor_loss.txt"), "sensor_loss.txt").reshape(-1)
            close(Q, np.full(case["epochs"], o["sensor_loss"]), tol, "sensor_loss.txt with learning rate zero", s["sensor_loss"])
    return {"program": name, "frozen": frozen, "dtype": case["dtype"], "square": case["test"][0] == case["test"][1]}

# ---- the notebooks -------------------------------------------------------------------------------------

NOTEBOOKS = ["poisson_training", "custom_training_poisson"]

NB_DRIVER = r"""
import json, re, sys
import numpy as np
import matplotlib
matplotlib.use("Agg")
import tensorflow as tf
book, conf, seed = sys.argv[1], json.load(open(sys.argv[2])), int(sys.argv[3])
tf.keras.utils.set_random_seed(seed)
g, left = {"__name__": "__main__"}, dict(conf)
for c in json.load(open(book))["cells"]:
    if c["cell_type"] != "code":
        continue
    src = "\n".join(l for l in "".join(c["source"]).splitlines() if not l.startswith(("!", "%")))
    for k in list(left):  # the user's settings in place of the notebook's own
        pat = re.compile(r"^%s\s*=\s*(\{[^}]*\}|[^#\n]*)" % k, re.M)
        if pat.search(src):
            v = left.pop(k)
            src = pat.sub(lambda m: f"{k} = {v}", src, count=1)
    exec(compile(src, "cell", "exec"), g)
assert not left, f"settings not found in the notebook: {sorted(left)}"
n = lambda v: np.asarray(v, dtype=float).tolist()
json.dump({
    "loss": [n(v) for v in g["loss_array"]], "times": len(g["time_array"]), "errors": {k: n(v) for k, v in g["error_df"].items()},
    "test": n(g["test_points"]), "exact": n(g["y_exact"]), "pred": n(g["y_pred"]), "weights": [n(v) for v in g["model"].get_weights()],
    "dirichlet": [n(g["train_dirichlet_input"]), n(g["train_dirichlet_output"])], "dtype": g["model"].layer_list[0].kernel.dtype.name,
    "lines": [n(l.get_ydata()) for ax in g["axs"].ravel() for l in ax.get_lines()],
}, open("vp_record.json", "w"))
"""


@st.composite
def s_book(draw):
    c = draw(s_program().filter(lambda c: "box" in c and c["name"] != "hard"))
    c["name"] = draw(st.sampled_from(NOTEBOOKS))
    if c["name"] == "custom_training_poisson":
        c["dtype"] = "float32"
    c["hid"] = [30, 30, 30]
    c["beta"] = draw(st.sampled_from([10, 1, 2.5]))
    return c


def c_book(case, ctx):
    """A notebook with settings of the user's own: errors, predictions and losses are those of the problem it states."""
    d = ctx.tmp()
    x0, x1, y0, y1 = case["box"]
    sp = case["sp"]
    conf = {
        "i_x_min": x0, "i_x_max": x1, "i_y_min": y0, "i_y_max": y1, "i_n_cells_x": case["cells"][0], "i_n_cells_y": case["cells"][1],
        "i_n_boundary_points": case["nb"], "i_n_test_points_x": case["test"][0], "i_n_test_points_y": case["test"][1], "i_output_path": repr(case["out"]),
        "i_fe_order": sp["n"], "i_fe_type": repr(sp["fe"]), "i_quad_order": sp["q"], "i_quad_type": repr(sp["rule"]),
        "i_learning_rate_dict": repr(case["lr"]), "i_dtype": "tf." + case["dtype"], "i_activation": repr(case["act"]), "i_beta": case["beta"], "i_num_epochs": case["epochs"],
    }  # fmt: skip
    with open(os.path.join(d, "driver.py"), "w") as f:
        f.write(NB_DRIVER)
    with open(os.path.join(d, "conf.json"), "w") as f:
        json.dump(conf, f)
    book = os.path.join(EX, "notebooks", case["name"] + ".ipynb")
    p = subprocess.run([sys.executable, "driver.py", book, "conf.json", str(case["seed"])], cwd=d, env=dict(os.environ, PYTHONPATH=REPO, MPLBACKEND="Agg"), capture_output=True, text=True, timeout=240, stdin=subprocess.DEVNULL)
    if p.returncode != 0:
        fail(f"{case['name']}.ipynb failed: " + p.stderr.strip()[-600:])
    rec = json.load(open(os.path.join(d, "vp_record.json")))
    f64 = case["dtype"] == "float64"
    tol, one = (1e-9, 1e-10) if f64 else (3e-4, 3e-5)
    need(rec["dtype"] == case["dtype"], lambda: f"a {rec['dtype']} network instead of {case['dtype']}")
    W = [np.array(w) for w in rec["weights"]]
    T = arr(rec["test"], (case["test"][0] * case["test"][1], 2), "test points")
    X, Y = np.meshgrid(np.linspace(x0, x1, case["test"][0]), np.linspace(y0, y1, case["test"][1]))
    G = np.c_[X.ravel(), Y.ravel()]
    need(np.abs(G[np.lexsort(G.T)] - T[np.lexsort(T.T)]).max() <= 1e-12, "the test points are not the grid asked for")
    om = 2 * np.pi * (2 if case["name"].startswith("custom") else 1)
    u = lambda x, y: -np.sin(om * x) * np.sin(om * y)
    exact, big = u(T[:, 0], T[:, 1]), sum(np.abs(w).sum() for w in W[-2:])
    close(rec["exact"], exact, 1e-12, "exact solution", 1.0)
    pred = net.forward(W, case["act"], T)[0][:, 0]
    close(rec["pred"], pred, one, "prediction from the network's weights", big)
    e = exact - pred
    norms = {"L2": np.sqrt(np.mean(e**2)), "L1": np.mean(np.abs(e)), "L_inf": np.abs(e).max()}
    den = {"L2": np.sqrt(np.mean(exact**2)), "L1": np.mean(np.abs(exact)), "L_inf": np.abs(exact).max()}
    for k in norms:
        close(rec["errors"][k + " Error"], [norms[k]], one, f"{k} error", big + 1)
        if den[k] > 1e-6:
            close(rec["errors"][f"Relative {k} Error"], [norms[k] / den[k]], one, f"relative {k} error", (big + 1) / den[k])
    L = np.array(rec["loss"]).reshape(len(rec["loss"]), -1)
    need(L.shape == (case["epochs"], 1) and np.all(np.isfinite(L)) and rec["times"] == case["epochs"], lambda: f"losses {L} for {case['epochs']} epochs")
    XD, YD = (np.array(v) for v in rec["dirichlet"])
    span = 1 + np.abs(case["box"]).max()
    S = np.array([[[x0, y0], [x1, y0]], [[x1, y0], [x1, y1]], [[x1, y1], [x0, y1]], [[x0, y1], [x0, y0]]], dtype=float)
    need(on_segments(XD, S, 1e-6 * span), "boundary points which are not on the boundary")
    need(np.all(YD == 0), "boundary values other than the problem's")
    if case["lr"]["initial_learning_rate"] == 0:
        gx, gy = np.linspace(x0, x1, case["cells"][0] + 1), np.linspace(y0, y1, case["cells"][1] + 1)
        C = np.array([[[a, c], [b, c], [b, d], [a, d]] for a, b in zip(gx[:-1], gx[1:]) for c, d in zip(gy[:-1], gy[1:])])
        refs = [build.RefCell(v, sp) for v in C]
        R = {"X": np.concatenate([np.stack([r.x, r.y], 1) for r in refs]), "XD": XD, "YD": YD.reshape(-1, 1), "XS": np.zeros((1, 2)), "YS": np.zeros((1, 1))}
        R.update({k: np.array([getattr(r, a) for r in refs]) for k, a in (("V", "val"), ("GX", "gx"), ("GY", "gy"))})
        R["F"] = np.array([r.val @ (2 * om**2 * u(r.x, r.y)) for r in refs]).T
        nc = {"kind": "dense", "pb": "poisson", "n": [len(C), sp["n"] ** 2, sp["q"] ** 2], "act": case["act"], "dtype": case["dtype"], "p": {"eps": 1.0}, "beta": case["beta"]}
        o, s = net.reference(nc, R, W)
        close(L[:, 0], np.full(case["epochs"], o["loss"]), tol, "losses with learning rate zero", s["loss"])
        need(any(len(l) == case["epochs"] and np.allclose(l, L[:, 0], rtol=1e-6) for l in rec["lines"]), "the plotted losses are not those of the training")
    return {"program": case["name"], "frozen": case["lr"]["initial_learning_rate"] == 0, "dtype": case["dtype"], "square": case["test"][0] == case["test"][1]}


# ---- the problems --------------------------------------------------------------------------------------

EXACT = ["poisson", "helmholtz", "hard", "poisson-mesh", "usa", "cd2d", "helmholtz-mesh", "inverse", "inverse-usa", "optuna"]


class Numeric:
    """A function of the problem module with derivatives by complex steps."""

    def __init__(self, f):
        self.f = f

    def __call__(self, x, y):
        return np.asarray(self.f(x, y), dtype=float) + 0 * x

    def d(self, x, y, p, q):
        h = 1e-30
        return np.imag(self.f(x + 1j * h, y + 0j) if p else self.f(x + 0j, y + 1j * h)) / h


@st.composite
def s_problem(draw):
    m = draw(gen.mesh(2, 2, wild=False))
    return {"name": draw(st.sampled_from(EXACT)), "mesh": m, "at": [draw(gen.frac(-1, 1)), draw(gen.frac(-1, 1))], "fe": draw(st.sampled_from(ref.BUBBLES)), "n": draw(st.integers(2, 5)), "rule": draw(st.sampled_from(["gauss-legendre", "gauss-jacobi"])), "size": draw(st.sampled_from([0.1, 0.2, 0.3]))}


def c_problem(case, ctx):
    """The exact solution of a problem has no residual in the equation, with the problem's own data, and the boundary data are its values."""
    from props.e01 import call_loss, magnitude, tensors
    from props.h01 import Domain, handler

    name = case["name"]
    pm = problem(name)
    pb = PROGRAMS[name][3]
    C = gen.cell_coords(case["mesh"])
    lo, hi = C.reshape(-1, 2).min(0), C.reshape(-1, 2).max(0)
    C = (C - (lo + hi) / 2) / (hi - lo).max() * case["size"] + np.array(case["at"])
    sp = {"fe": case["fe"], "n": case["n"], "rule": case["rule"], "q": 14, "trafo": "bilinear"}
    u = Numeric(pm.exact_solution)
    with sut("the problem's parameters"):
        p = {k: float(v) for k, v in pm.get_bilinear_params_dict().items()}
    e = None
    if pb == "cd2d_inverse_domain":
        e = Numeric(lambda x, y: pm.get_inverse_params_actual_dict(x, y)["eps"])
    elif pb.endswith("inverse"):
        p["eps"] = float(pm.get_inverse_params_actual_dict()["eps"])
    c = {"pb": pb, "p": p, "dtype": "float64"}
    s = build.space(case["mesh"], sp, forcing=pm.rhs, coords=C)
    d = handler(s, Domain(np.zeros((1, 2))), "float64")
    L = call_loss(c, tensors(c, d, u, e), len(C))
    for i, v in enumerate(C):
        r = build.RefCell(v, sp)
        S = magnitude(r, c, u, Numeric(pm.rhs), e)
        need(np.sqrt(L[i]) <= 1e-8 * S, lambda: f"{name}: the exact solution has residual {np.sqrt(L[i])} in cell {i}, the terms have magnitude {S}")
    bf = pm.get_boundary_function_dict()
    need(set(bf) == set(pm.get_bound_cond_dict()), "boundary functions and conditions have different tags")
    # the rectangle examples state their values on the sides of the unit square (the Poisson ones), the others everywhere
    t = np.linspace(0, 1, 9)
    side = {1000: (t, 0 * t), 1001: (0 * t + 1, t), 1002: (t, 0 * t + 1), 1003: (0 * t, t)}
    for tag, g in bf.items():
        x, y = side[tag] if name in ("poisson", "hard", "optuna") else (C[..., 0].ravel(), C[..., 1].ravel())
        close(np.asarray(g(x, y), dtype=float) + 0 * x, u(x, y), 1e-12, f"{name}: boundary function {tag} against the exact solution", 1 + np.abs(u(x, y)).max())
    return {"problem": name, "fe": case["fe"]}


# ---- the meshes ----------------------------------------------------------------------------------------

MESHES = {"poisson-mesh": "circle_quad.mesh", "cd2d": "circle_quad.mesh", "usa": "usa.mesh", "inverse-usa": "usa.mesh", "inverse-circle": "circle_quad.mesh", "helmholtz-mesh": "circle_quad.mesh", "gear": "gear.mesh"}


def parse_medit(path):
    t = open(path).read().split()
    out, k = {}, 0
    width = {"Vertices": 4, "Edges": 3, "Quadrilaterals": 5, "Triangles": 4}
    while k < len(t):
        if t[k] in width:
            w, n = width[t[k]], int(t[k + 1])
            out[t[k]] = np.array(t[k + 2 : k + 2 + w * n], dtype=float).reshape(n, w)
            k += 2 + w * n
        else:
            k += 1
    return out


@st.composite
def s_mesh(draw):
    return {"name": draw(st.sampled_from([k for k in sorted(MESHES) if k != "gear"] * 3 + ["gear"])), "level": draw(st.integers(0, 3)), "method": draw(st.sampled_from(["uniform", "uniform", "lhs"])), "opt": draw(st.booleans())}


def c_mesh(case, ctx):
    """The mesh shipped with an example is read completely, and its tags are the ones the example has boundary data for."""
    name = case["name"]
    d = os.path.join(EX, PROGRAMS[name][0])
    path = os.path.join(d, MESHES[name])
    if not os.path.exists(path):
        path = os.path.join(os.path.dirname(d), "meshes", MESHES[name])
    M = parse_medit(path)
    P = M["Vertices"][:, :2]
    Q = M["Quadrilaterals"][:, :4].astype(int) - 1
    g = build.geometry("external", ctx.tmp(), opt=case["opt"])
    cells, bd = build.read(g, path, case["level"], case["method"], 1)
    C = arr(cells, (len(Q), 4, 2), "cells")
    h = np.abs(P).max()
    key = lambda A: A[np.lexsort(np.round(A.reshape(len(A), -1), 9).T)]
    cen, mine = C.mean(1), P[Q].mean(1)
    close(cen, mine, 1e-12, f"{name}: centres of the cells, in the order of the file", h)
    near = np.abs(C[:, :, None] - P[Q][:, None]).max(-1).min(2)
    need(near.max() <= 1e-12 * h, f"{name}: a cell has other corners than in the file")
    area = np.array([abs(ref.area(v)) for v in C]).sum()
    close(area, np.array([abs(ref.area(v)) for v in P[Q]]).sum(), 1e-10, f"{name}: area of the cells")
    tags = set(M["Edges"][:, 2].astype(int).tolist())
    need({int(k) for k in bd} == tags, lambda: f"{name}: tags {sorted(bd)} instead of {sorted(tags)}")
    pm = problem(name)
    need(tags <= set(pm.get_boundary_function_dict()) and tags <= set(pm.get_bound_cond_dict()), lambda: f"{name}: tags {sorted(tags)} of the mesh without boundary data")
    E = M["Edges"].astype(int)
    for t in tags:
        S = P[E[E[:, 2] == t][:, :2] - 1]
        B = arr(bd[t], (None, None), "boundary points")[:, :2]
        need(len(B) >= len(S), lambda: f"{name}: {len(B)} boundary points on {len(S)} edges of tag {t}")
        for a in range(0, len(B), 500):
            need(on_segments(B[a : a + 500], S, 1e-9 * h), lambda: f"{name}: a boundary point of tag {t} is not on an edge of that tag")
        if case["method"] == "uniform":
            for v in S.reshape(-1, 2)[:: max(1, len(S) // 50)]:
                need(np.abs(B - v).max(1).min() <= 1e-9 * h, lambda: f"{name}: vertex {v} of an edge of tag {t} is no boundary point")
    return {"mesh": MESHES[name], "method": case["method"]}


FACETS = [
    Facet("programs", s_program, c_program, 64, 320, rule="an example program as a new process with generated settings (and generated mesh): exact solution, prediction and error files against the problem and the saved weights, printed errors, plotted grids or VTK fields, training data, and with learning rate zero every loss from the definitions"),
    Facet("notebooks", s_book, c_book, 12, 80, rule="a notebook of the repository, cell by cell in a new process, with generated settings in place of its own: test grid, exact solution, predictions, six errors and boundary data; with learning rate zero all losses from the definitions"),
    Facet("problems", s_problem, c_problem, 160, rule="a shipped problem on small generated quadrilaterals: no residual of its exact solution with its own forcing and parameters, boundary functions equal to it"),
    Facet("meshes", s_mesh, c_mesh, 16, 64, rule="a shipped mesh read by the library against an independent parser of the file, tags against the example's boundary data"),
]
