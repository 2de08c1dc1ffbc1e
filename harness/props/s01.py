"""S01: the accessors of a finite element space are read-only, deterministic and check the cell index."""
import numpy as np
from hypothesis import strategies as st

import build
import gen
from engine import Facet, Violation, arr, fail, need, sut

ACC = [
    "get_shape_function_val",
    "get_shape_function_grad_x",
    "get_shape_function_grad_y",
    "get_shape_function_grad_x_ref",
    "get_shape_function_grad_y_ref",
    "get_quadrature_actual_coordinates",
    "get_quadrature_weights",
    "get_forcing_function_values",
]


VEC = "get_forcing_function_values_vector"
EXACT = set(ACC) - {"get_forcing_function_values"}  # read from what the space holds: not even the last digit may change


@st.composite
def s_hist(draw):
    k = draw(st.integers(1, 3))
    spaces = []
    for _ in range(k):
        m = draw(gen.mesh(2, 2))
        d = {"mesh": m, "sp": draw(gen.fespec(m["kind"], 4, 4)), "f": draw(gen.funcspec(kinds=("poly", "trig", "trig")))}
        d["vector"] = draw(st.sampled_from([False, False, True]))
        d["size"] = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-12, 1e9]))
        spaces.append(d)
    acc = st.sampled_from(ACC + [VEC, VEC])
    who = st.integers(0, k - 1)
    op = gen.few(
        st.one_of(
            st.tuples(st.just("get"), who, acc, st.integers(0, 7)),
            st.tuples(st.just("get"), who, acc, st.integers(0, 7)),
            st.tuples(st.just("scribble"), who, acc, st.integers(0, 7)),
            st.tuples(st.just("bad"), who, acc, st.sampled_from([-1, -2, -7, 0, 1, 5, 10**9])),
            st.tuples(st.just("dirichlet"), who, acc, st.integers(0, 1)),
            st.tuples(st.just("new"), who, acc, st.just(0)),
        ),
        st.tuples(st.sampled_from(["sensors", "plot"]), who, acc, st.integers(2, 20)),
        150,
    )
    return {"spaces": spaces, "ops": draw(st.lists(op, min_size=3, max_size=16))}


def read(s, d, a, c, k):
    """One accessor of the space; the forcing accessors depend on the kind of problem."""
    if a in (VEC, "get_forcing_function_values"):
        if d.get("vector"):
            return getattr(s, VEC)(c, k % 2)
        return s.get_forcing_function_values(c)
    return getattr(s, a)(c)


def dirichlet(s, d, k):
    with sut("Dirichlet data"):
        return s.generate_dirichlet_boundary_data_vector(k) if d.get("vector") else s.generate_dirichlet_boundary_data()


def c_hist(case, ctx):
    def make(d):
        f = gen.func(d["f"], *gen.mesh_scale(d["mesh"]))
        z = d.get("size", 1.0)
        F = (lambda x, y: (z * f(x, y), z * (1 / 3 + f(y, x)))) if d.get("vector") else (lambda x, y: z * f(x, y))
        bd = build.boundary(d["mesh"])
        return build.space(d["mesh"], d["sp"], forcing=F, bd=bd, funcs={t: F for t in bd}, out=ctx.tmp())

    ss = [make(d) for d in case["spaces"]]
    first, last, data = {}, {}, {}
    for i, d in enumerate(case["spaces"]):  # values of a space nobody else uses
        t = make(d)
        for c in range(len(d["mesh"]["cells"])):
            for a in ACC + ([VEC] if d.get("vector") else []):
                for k in (0, 1):
                    with sut(a):
                        first[i, a, c, k] = np.array(read(t, d, a, c, k), dtype=float, copy=True)
        data[i] = [[np.array(v, dtype=float).reshape(len(v), -1) for v in dirichlet(t, d, k)] for k in (0, 1)]
    for op, i, a, c in case["ops"]:
        d = case["spaces"][i]
        n = len(d["mesh"]["cells"])
        if a == VEC and not d.get("vector"):
            a = "get_forcing_function_values"
        if op in ("get", "scribble"):
            k, c = c % 2, c // 2 % n
            with sut(f"{a}({c})"):
                r = read(ss[i], d, a, c, k)
            ref = first[i, a, c, k]
            g = arr(r, ref.shape, f"{a}({c})")
            tol = 1e-12 * (np.abs(ref).max() + 1e-300)
            need(np.all(np.abs(g - ref) <= tol), lambda: f"{a}({c}) changed during a history of calls")
            if a in EXACT:
                g = g.copy()
                need(np.array_equal(last.setdefault((i, a, c), g), g), lambda: f"{a}({c}) returns other values than at the previous call (differences up to {np.abs(last[i, a, c] - g).max():.2g})")
            if op == "scribble":
                try:
                    r[...] = -12345.0
                except ValueError:
                    pass  # a read-only array is as good
        elif op == "bad":
            bad = c if c < 0 else n + c
            try:
                read(ss[i], d, a, bad, 0)
            except ValueError:
                continue
            except Exception as e:
                fail(f"{a}({bad}) of {n} cells raised {type(e).__name__}, expected ValueError")
            fail(f"{a}({bad}) of {n} cells was accepted")
        elif op == "dirichlet":
            x, y = dirichlet(ss[i], d, c % 2)
            for v, w, what in zip((x, y), data[i][c % 2], ("points", "values")):
                v = np.array(v, dtype=float).reshape(len(v), -1)
                need(v.shape == w.shape and np.array_equal(v, w), f"the Dirichlet {what} changed during a history of calls")
            for p in x:
                p[...] = 5.0
        elif op == "sensors":
            with sut("get_sensor_data"):
                p, _ = ss[i].get_sensor_data(lambda x, y: x + y, c)
            p[...] = 1e3
        elif op == "plot":
            with sut("generate_plot"):
                ss[i].generate_plot(ctx.tmp())
        else:
            make(d)
    return {"ops": len(case["ops"]) // 5, "nontrivial": len(case["ops"]) > 3 and any(o[0] != "get" for o in case["ops"]), "spaces": len(case["spaces"]), "vector": any(d["vector"] for d in case["spaces"])}


@st.composite
def s_bad(draw):
    m = draw(gen.mesh(2, 2))
    return {
        "mesh": m,
        "sp": draw(gen.fespec(m["kind"], 3, 3)),
        "acc": draw(st.sampled_from(ACC + ["get_forcing_function_values_vector"])),
        "idx": draw(st.one_of(st.integers(-3, 3), st.integers(-(10**6), 10**6))),
        "np": draw(st.booleans()),
    }


def c_bad(case, ctx):
    s = build.space(case["mesh"], case["sp"], forcing=lambda x, y: (x, y) if case["acc"].endswith("vector") else x)
    n = len(case["mesh"]["cells"])
    i = case["idx"] if case["idx"] < 0 else n + case["idx"]
    j = np.int64(i) if case["np"] else i
    args = (j, 0) if case["acc"].endswith("vector") else (j,)
    try:
        getattr(s, case["acc"])(*args)
    except ValueError:
        return {"side": "low" if i < 0 else "high", "acc": case["acc"]}
    except Exception as e:
        fail(f"{case['acc']}({i}) of {n} cells raised {type(e).__name__}, expected ValueError")
    fail(f"{case['acc']}({i}) of {n} cells was accepted")


FACETS = [
    Facet("histories", s_hist, c_hist, 800, rule="1-3 spaces, scalar and vector problems, 3-16 calls (get, overwrite what was returned, bad index, Dirichlet data, sensors, plot, create another space); every result equals that of an untouched space, and repeated reads of stored arrays agree to the last digit; non-trivial: more than 3 calls, not only gets"),
    Facet("bad-index", s_bad, c_bad, 600, rule="accessor x index outside the range: ValueError"),
]
