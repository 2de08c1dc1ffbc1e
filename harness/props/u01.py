"""U01: the hyperparameter search trains the suggested configuration and returns the best parameters (with a stand-in for optuna)."""
import contextlib
import math
import os
import sys
import types

import numpy as np
from hypothesis import strategies as st

import gen
from engine import Facet, arr, close, fail, need, sut


class Trial:
    """Suggests small values inside the requested ranges, from the case's own numbers."""

    def __init__(self, number, seed, hot=False):
        self.number = number
        self.r = np.random.RandomState(seed)
        self.params = {}
        self.hot = hot
        self.value = None

    def _put(self, name, v):
        if name in self.params:
            return self.params[name]
        self.params[name] = v
        return v

    def suggest_int(self, name, low, high, step=1, log=False):
        if low > high:
            raise ValueError("low > high")
        return self._put(name, int(min(high, low + self.r.randint(0, 3))))

    def suggest_categorical(self, name, choices):
        return self._put(name, choices[self.r.randint(0, len(choices))])

    def suggest_float(self, name, low, high, step=None, log=False):
        if low > high:
            raise ValueError("low > high")
        t = self.r.rand()
        if self.hot and "learning_rate" in name:
            t = 1 - 0.1 * t
        return self._put(name, float(math.exp(math.log(low) * (1 - t) + math.log(high) * t) if log else low + t * (high - low)))

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)

    def suggest_loguniform(self, name, low, high):
        return self.suggest_float(name, low, high, log=True)


class Study:
    def __init__(self, opt, kw):
        self.opt, self.kw, self.trials = opt, kw, []
        d = kw.get("direction", "minimize")
        self.sign = {"minimize": 1, "maximize": -1}[str(d)]

    def optimize(self, func, n_trials=None, timeout=None, n_jobs=1, **kw):
        if n_jobs == 0 or n_jobs < -1:
            raise ValueError("max_workers must be greater than 0")
        if n_trials is None:
            raise RuntimeError("endless study")
        for _ in range(n_trials):
            t = Trial(len(self.trials), self.opt.seed + 17 * len(self.trials), self.opt.hot)
            self.trials.append(t)
            seed_all(self.opt.seed + len(self.trials))
            before = len(self.opt.devices)
            t.value = float(func(t))
            t.devices = self.opt.devices[before:]

    @property
    def best_trial(self):
        return min(self.trials, key=lambda t: self.sign * t.value)

    @property
    def best_params(self):
        return dict(self.best_trial.params)

    @property
    def best_value(self):
        return self.best_trial.value


def seed_all(s):
    import tensorflow as tf

    tf.keras.utils.set_random_seed(s % (2**31))


def install(seed, hot=False, flat=False):
    """The stand-in optuna and the user's problem module."""
    opt = types.ModuleType("optuna")
    opt.seed, opt.hot = seed, hot
    opt.studies = []
    opt.devices = []
    stored = {}

    def create_study(**kw):
        key = (kw.get("storage"), kw.get("study_name"))
        if None not in key and key in stored:
            if not kw.get("load_if_exists"):
                raise RuntimeError(f"DuplicatedStudyError: another study with name {key[1]!r} already exists")
            return stored[key]
        s = Study(opt, kw)
        opt.studies.append(s)
        stored[key] = s
        return s

    opt.create_study = create_study
    opt.Trial = Trial
    sys.modules["optuna"] = opt
    pb = types.ModuleType("sin_cos")
    W = 2 * np.pi

    def exact_solution(x, y):
        return -np.sin(W * x) * np.sin(W * y)

    pb.exact_solution = exact_solution
    pb.rhs = lambda x, y: -2 * W**2 * np.sin(W * x) * np.sin(W * y)
    pb.get_boundary_function_dict = lambda: {1000 + k: (lambda x, y: 0.1 * k * np.ones_like(x)) for k in range(4)}
    pb.get_bound_cond_dict = lambda: {1000 + k: "dirichlet" for k in range(4)}
    pb.get_bilinear_params_dict = lambda: {"eps": 1.0}
    if flat:  # the loss falls quickly and then goes up and down
        pb.rhs = lambda x, y: 0.0 * x
        pb.get_boundary_function_dict = lambda: {1000 + k: (lambda x, y: np.zeros_like(x)) for k in range(4)}
    sys.modules["sin_cos"] = pb
    for m in [m for m in sys.modules if m.startswith("fastvpinns.hyperparameter_tuning")]:
        del sys.modules[m]
    with sut("importing the tuner"):
        from fastvpinns.hyperparameter_tuning import objective, optuna_tuner
    return opt, pb, objective, optuna_tuner


def expected(p, pb, n_epochs, seed):
    """The same training put together from the library's documented parts."""
    import tensorflow as tf

    from fastvpinns.data.datahandler2d import DataHandler2D
    from fastvpinns.FE.fespace2d import Fespace2D
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    from fastvpinns.model.model import DenseModel
    from fastvpinns.physics.poisson2d import pde_loss_poisson

    seed_all(seed)
    os.makedirs("mine", exist_ok=True)
    g = Geometry_2D("quadrilateral", "internal", 100, 100, "mine", is_optimized=True)
    cells, bd = g.generate_quad_mesh_internal(x_limits=[0, 1], y_limits=[0, 1], n_cells_x=p["n_cells_x"], n_cells_y=p["n_cells_y"], num_boundary_points=p["n_boundary_points"])
    s = Fespace2D(
        mesh=g.mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=p["fe_order"], fe_type=p["fe_type"], quad_order=p["quad_order"], quad_type=p["quad_type"], fe_transformation_type="bilinear",
        bound_function_dict=pb.get_boundary_function_dict(), bound_condition_dict=pb.get_bound_cond_dict(), forcing_function=pb.rhs, output_path="mine",
    )
    d = DataHandler2D(s, g, dtype=tf.float32)
    a, b = d.get_dirichlet_input()
    m = DenseModel(
        layer_dims=[2] + [p[f"layer_{i}"] for i in range(p["n_layers"])] + [1],
        learning_rate_dict={"initial_learning_rate": p["initial_learning_rate"], "use_lr_scheduler": True, "decay_steps": p["decay_steps"], "decay_rate": p["decay_rate"]},
        params_dict={"n_cells": s.n_cells}, loss_function=pde_loss_poisson, input_tensors_list=[d.x_pde_list, a, b],
        orig_factor_matrices=[d.shape_val_mat_list, d.grad_x_mat_list, d.grad_y_mat_list], force_function_list=d.forcing_function_list, tensor_dtype=tf.float32, activation="tanh",
    )
    bil = d.get_bilinear_params_dict_as_tensors(pb.get_bilinear_params_dict)
    for _ in range(n_epochs):
        m.train_step(beta=tf.constant(10, dtype=tf.float32), bilinear_params_dict=bil)
    x = np.linspace(0, 1, 100)
    X, Y = np.meshgrid(x, x)
    T = np.stack([X.ravel(), Y.ravel()], 1)
    u = pb.exact_solution(T[:, 0], T[:, 1])
    v = m(T).numpy().reshape(-1)
    return float(np.sqrt(np.mean((u - v) ** 2)) / np.sqrt(np.mean(u**2)))


@contextlib.contextmanager
def machine(n_gpus, opt):
    """A machine with this many accelerators: they are listed, and code placed on one of them runs here."""
    import tensorflow as tf

    old = [(o, n, getattr(o, n)) for o, n in ((tf.config, "list_physical_devices"), (tf.config, "list_logical_devices"), (tf, "device"), (tf.config.experimental, "set_memory_growth"), (tf.config.experimental, "list_physical_devices"))]
    phys, logi, dev = old[0][2], old[1][2], old[2][2]

    def name(kind, k):
        return tf.config.PhysicalDevice(f"/physical_device:GPU:{k}", "GPU") if kind == "p" else tf.config.LogicalDevice(f"/device:GPU:{k}", "GPU")

    def listing(kind, true):
        def f(device_type=None):
            g = [name(kind, k) for k in range(n_gpus)]
            return g if device_type == "GPU" else true(device_type) + (g if device_type is None else [])

        return f

    def device(d):
        s = str(getattr(d, "name", d)).lower()
        if "gpu" not in s:
            return dev(d)
        opt.devices.append(s)
        k = s.rsplit(":", 1)[-1]
        if not k.isdigit() or int(k) >= n_gpus:
            raise RuntimeError(f"unknown device {d}")
        return contextlib.nullcontext()

    tf.config.list_physical_devices = tf.config.experimental.list_physical_devices = listing("p", phys)
    tf.config.list_logical_devices = listing("l", logi)
    tf.device = device
    tf.config.experimental.set_memory_growth = lambda *a: None
    try:
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


@st.composite
def s_search(draw):
    return {
        "seed": draw(st.integers(0, 10**6)), "trials": draw(st.integers(1, 3)), "epochs": draw(gen.few(st.integers(0, 3), st.integers(4, 40), 4)), "hot": draw(st.booleans()), "flat": draw(st.booleans()), "jobs": draw(st.sampled_from([-1, 1, 2])),
        "gpus": 0, "runs": 1,
    }


@st.composite
def s_machines(draw):
    c = draw(s_search())
    c.update(gpus=draw(st.sampled_from([0, 1, 1, 2, 3, 4])), runs=draw(st.sampled_from([1, 1, 2])), epochs=draw(st.integers(0, 1)), trials=draw(st.integers(1, 5)), jobs=draw(st.sampled_from([-1, 1, 2, 8])))
    return c


def c_search(case, ctx):
    opt, pb, _, tuner = install(case["seed"], case["hot"], case["flat"])
    for run in range(case["runs"]):
        with machine(case["gpus"], opt) if case["gpus"] else contextlib.nullcontext():
            with sut("OptunaTuner"):
                t = tuner.OptunaTuner(n_trials=case["trials"], study_name=f"s{case['seed']}", n_jobs=case["jobs"], n_epochs=case["epochs"])
                best = t.run()
        need(opt.studies, "no study was created")
        s = opt.studies[-1]
        done = sum(len(q.trials) for q in opt.studies)
        need(done == case["trials"] * (run + 1), lambda: f"{done} trials instead of {case['trials'] * (run + 1)}")
        low = min(s.trials, key=lambda q: q.value)
        need(best == low.params, lambda: f"the returned parameters {best} are not those of the trial with the least error {low.params}")
    used = set()
    for s in opt.studies:
        for k, q in enumerate(s.trials):
            need(math.isfinite(q.value) and q.value >= 0, lambda: f"value {q.value}")
            want = expected(q.params, pb, case["epochs"], case["seed"] + k + 1)
            close(q.value, want, 2e-4 if case["epochs"] <= 3 else 1e-3, f"trial {k}: relative error of the trained model", abs(want))
            used |= set(q.devices)
    if case["gpus"]:
        n = min(case["gpus"], done)
        need(len(used) >= n, lambda: f"{done} trials on a machine with {case['gpus']} accelerators used {sorted(used)} only")
    return {"trials": case["trials"], "epochs": case["epochs"], "gpus": case["gpus"], "runs": case["runs"], "nontrivial": case["trials"] > 1 or case["epochs"] > 0}


FACETS = [Facet("search", s_search, c_search, 48, 200, rule="tuner with 1-3 trials of 0-3 (in a quarter of the cases 4-40) epochs, large learning rates, problems with oscillating loss, on a stand-in study: number of trials, each trial's value against the same training assembled independently, best parameters; non-trivial: several trials or epochs"),
          Facet("machines", s_machines, c_search, 32, 160, rule="as search with 0-1 epochs, on machines which list 0-4 accelerators (the placement calls are recorded and then run here), with one or two searches in the same study: additionally every placement names an existing accelerator and as many accelerators as there are trials are used; non-trivial: several trials or epochs")]
