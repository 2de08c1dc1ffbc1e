"""I01: the package works, and gives the same results, whichever of its modules are imported first."""
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from engine import REPO, Facet, close, fail, need

PROBE = r'''
import importlib, json, random, sys
import numpy as np
# a user who wants to get the same numbers again sets the seeds at the start
np.random.seed(int(sys.argv[3]) + 1)
random.seed(int(sys.argv[3]))
for m in json.loads(sys.argv[1]):
    importlib.import_module(m)
part, seed = sys.argv[2], int(sys.argv[3])
r = np.random.RandomState(seed)
out = {}
C = np.array([[[0, 0], [1, 0], [1.2, 1], [0, 1]], [[1, 0], [2, 0.1], [2, 1], [1.2, 1]]], dtype=float)
BD = {1000: np.array([[0, 0], [1, 0], [2, 0.1]]), 1001: np.array([[0, 1.0], [2, 1]])}
FE, RULE, TR = r.choice(["legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain"]), r.choice(["gauss-legendre", "gauss-jacobi"]), r.choice(["affine", "bilinear"])

def setup():
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    s = FE2DSetupMain("quadrilateral", 3, str(FE), 4, str(RULE))
    b = s.assign_basis_function()
    w, x, y = s.assign_quadrature_rules()
    t = s.assign_fe_transformation(str(TR), C[0])
    t.set_cell()
    out["basis"] = (b.value(x, y) @ w).tolist()
    out["grad"] = (b.gradx(x, y) @ w).tolist()

def space():
    from fastvpinns.FE.fespace2d import Fespace2D
    f = lambda x, y: np.sin(x) * y + np.exp(-900.0 * (1 + x * x))  # the second term underflows
    g = {t: (lambda x, y: x + y) for t in BD}
    return Fespace2D(mesh=None, cells=C, boundary_points=BD, cell_type="quadrilateral", fe_order=3, fe_type=str(FE), quad_order=4, quad_type=str(RULE), fe_transformation_type=str(TR), bound_function_dict=g, bound_condition_dict={t: "dirichlet" for t in BD}, forcing_function=f, output_path=".")

def handler():
    import tensorflow as tf
    from fastvpinns.data.datahandler2d import DataHandler2D
    class D:
        def get_test_points(self):
            return np.zeros((2, 2))
    return DataHandler2D(space(), D(), dtype=tf.float64)

def model():
    import tensorflow as tf
    d = handler()
    kind = ["model", "model_hard", "model_inverse", "model_inverse_domain"][seed % 4]
    cls = {"model": "DenseModel", "model_hard": "DenseModel_Hard", "model_inverse": "DenseModel_Inverse", "model_inverse_domain": "DenseModel_Inverse_Domain"}[kind]
    lm, lf = {"model": [("poisson2d", "pde_loss_poisson"), ("cd2d", "pde_loss_cd2d"), ("helmholtz2d", "pde_loss_helmholtz")][seed % 3], "model_hard": ("poisson2d", "pde_loss_poisson"), "model_inverse": [("poisson2d_inverse", "pde_loss_poisson_inverse"), ("cd2d_inverse", "pde_loss_cd2d")][seed % 2], "model_inverse_domain": ("cd2d_inverse_domain", "pde_loss_cd2d_inverse_domain")}[kind]
    loss = getattr(importlib.import_module("fastvpinns.physics." + lm), lf)
    M = getattr(importlib.import_module("fastvpinns.model." + kind), cls)
    a, b = d.get_dirichlet_input()
    p = d.get_bilinear_params_dict_as_tensors(lambda: {"eps": 0.5, "b_x": 1.0, "b_y": -0.25, "c": 2.0, "k": 1.5})
    kw = {}
    if "inverse" in kind:
        kw["sensor_list"] = [a, b]
    if kind == "model_inverse":
        kw["inverse_params_dict"] = d.get_inverse_params(lambda: {"eps": 0.7})
    if kind == "model_hard":
        kw["hard_constraint_function"] = lambda x, y: y * x[:, 0:1]
    m = M(layer_dims=[2, 3, 2 if kind == "model_inverse_domain" else 1], learning_rate_dict={"initial_learning_rate": 0.01, "use_lr_scheduler": False, "decay_steps": 1, "decay_rate": 0.9}, params_dict={"n_cells": 2}, loss_function=loss, input_tensors_list=[d.x_pde_list, a, b], orig_factor_matrices=[d.shape_val_mat_list, d.grad_x_mat_list, d.grad_y_mat_list], force_function_list=d.forcing_function_list, tensor_dtype=tf.float64, activation="tanh", **kw)
    w = [v for l in m.layer_list for v in l.trainable_variables]
    for v in w:
        v.assign(r.randn(*v.shape))
    for k in range(2):
        q = m.train_step(beta=tf.constant(10.0, dtype=tf.float64), bilinear_params_dict=p)
        out["loss%d" % k] = [float(np.asarray(q["loss"]).reshape(-1)[0])]

def geometry():
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    g = Geometry_2D("quadrilateral", "internal", 3, 4, ".", is_optimized=True)
    c, b = g.generate_quad_mesh_internal(x_limits=[0, 2], y_limits=[0, 1], n_cells_x=2, n_cells_y=3, num_boundary_points=20)
    out["cells"] = np.asarray(c).ravel().tolist()
    out["bd"] = [float(v) for k in sorted(b) for v in np.asarray(b[k]).ravel()]
    out["test"] = np.asarray(g.get_test_points()).ravel().tolist()

def utils():
    from fastvpinns.utils.compute_utils import compute_errors_combined
    from fastvpinns.utils.print_utils import print_table
    from fastvpinns.utils.plot_utils import plot_array
    print_table("t", ["a", "b"], ["x"], [1.5])
    out["err"] = [float(x) for x in compute_errors_combined(r.randn(9), r.randn(9))]
    z = compute_errors_combined(np.zeros(4), r.randn(4) * 1e-170)
    out["zero"] = ["%.12g" % x for x in z]
    d = compute_errors_combined(r.randn(4), np.array([1.0, np.inf, np.nan, 2.0]))
    out["diverged"] = ["%.12g" % x for x in d]

def do_space():
    s = space()
    for i in range(2):
        out["v%d" % i] = s.get_shape_function_val(i).ravel().tolist()
        out["f%d" % i] = s.get_forcing_function_values(i).ravel().tolist()

{"setup": setup, "space": do_space, "handler": lambda: out.update(h=handler().forcing_function_list.numpy().ravel().tolist()), "model": model, "geometry": geometry, "utils": utils}[part]()
print("\nRESULT " + json.dumps(out))
'''

PARTS = ["setup", "setup", "space", "handler", "model", "geometry", "utils"]


def modules():
    out = []
    root = os.path.join(REPO, "fastvpinns")
    for d, sub, files in os.walk(root):
        sub[:] = sorted(s for s in sub if s not in ("tests", "hyperparameter_tuning", "__pycache__"))
        for f in sorted(files):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return sorted(set(out))


@st.composite
def s_import(draw):
    m = modules()
    return {"first": draw(st.lists(st.sampled_from(m), min_size=1, max_size=4, unique=True)), "part": draw(st.sampled_from(PARTS)), "seed": draw(st.integers(0, 11))}


def probe(mods, part, seed, cwd):
    p = subprocess.run([sys.executable, "-c", PROBE, json.dumps(mods), part, str(seed)], cwd=cwd, capture_output=True, text=True, timeout=200, stdin=subprocess.DEVNULL)
    if p.returncode:
        fail(f"after importing {', '.join(mods) or 'nothing'} first, {part} fails: {p.stderr.strip().splitlines()[-1][:300] if p.stderr.strip() else p.returncode}")
    line = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
    need(line, "no result")
    return json.loads(line[-1][7:])


BASE = {}


def c_import(case, ctx):
    k = (case["part"], case["seed"])
    d = ctx.tmp()
    if k not in BASE:
        BASE[k] = probe([], *k, d)
    got = probe(case["first"], *k, d)
    need(set(got) == set(BASE[k]), "different results")
    for q in got:
        if isinstance(got[q][0], str):
            need(got[q] == BASE[k][q], lambda: f"{case['part']}: {q} after importing {', '.join(case['first'])} first: {got[q]}, otherwise {BASE[k][q]}")
            continue
        close(got[q], BASE[k][q], 1e-12, f"{case['part']}: {q} after importing {', '.join(case['first'])} first", np.abs(BASE[k][q]).max() + 1e-300)
    return {"part": case["part"], "n": len(case["first"])}


@st.composite
def s_each(draw):
    return {"m": draw(st.sampled_from(modules()))}


STATE = """
import json, random, sys
import numpy as np
np.random.seed(11)
random.seed(12)
err = np.geterr()
__import__(sys.argv[1])
out = {"numpy's random numbers": np.random.rand() == np.random.RandomState(11).rand(), "Python's random numbers": random.random() == random.Random(12).random(), "the treatment of floating point errors": np.geterr() == err}
tf = sys.modules.get("tensorflow")
if tf is not None:
    out["TensorFlow's random numbers"] = getattr(__import__("tensorflow.python.eager.context", fromlist=["context"]), "global_seed")() is None
    out["the default precision"] = tf.keras.backend.floatx() == "float32"
    out["eager execution"] = not tf.config.functions_run_eagerly()
print("\\nSTATE " + json.dumps(out))
"""


def c_each(case, ctx):
    """Every module can be imported on its own, without output files or exceptions, and leaves the user's numerical settings alone."""
    d = ctx.tmp()
    p = subprocess.run([sys.executable, "-c", STATE, case["m"]], cwd=d, capture_output=True, text=True, timeout=200, stdin=subprocess.DEVNULL)
    if p.returncode:
        fail(f"importing {case['m']} alone fails: {p.stderr.strip().splitlines()[-1][:300] if p.stderr.strip() else p.returncode}")
    need(os.listdir(d) == [], lambda: f"importing {case['m']} leaves files {os.listdir(d)}")
    for what, same in json.loads(next(l for l in p.stdout.splitlines() if l.startswith("STATE "))[6:]).items():
        need(same, lambda: f"importing {case['m']} changes {what}")
    return {"m": case["m"].split(".")[1] if "." in case["m"] else "top"}


FACETS = [
    Facet("order", s_import, c_import, 64, 320, rule="new process per case: 1-4 modules in random order imported first, then one part of the library used; same numbers as without"),
    Facet("alone", s_each, c_each, 120, 240, rule="new process per case: one module imported alone; random states, default precision and error handling as without the import"),
]
