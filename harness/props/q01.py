"""Q01: quadrature rules."""
import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import legendre as L

import gen
import ref
from engine import Facet, arr, close, need, sut

KINDS = ["gauss-legendre", "gauss-jacobi"]


def rule(kind, n, via):
    with sut(f"the {kind} rule of order {n}"):
        if via == "setup":
            from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain

            w, xi, eta = FE2DSetupMain(cell_type="quadrilateral", fe_order=2, fe_type="legendre", quad_order=n, quad_type=kind).assign_quadrature_rules()
        else:
            from fastvpinns.FE.quadratureformulas_quad2d import Quadratureformulas_Quad2D

            q = Quadratureformulas_Quad2D(n, kind)
            w, xi, eta = q.get_quad_values()
            need(q.get_num_quad_points() == n * n, f"{q.get_num_quad_points()} points reported for order {n}")
    return arr(w, (n * n,), "weights"), arr(xi, (n * n,), "xi"), arr(eta, (n * n,), "eta")


@st.composite
def s_exact(draw):
    n = draw(st.one_of(st.integers(3, 24), st.integers(3, 24), st.integers(25, 70), st.integers(71, 140)))
    return {"kind": draw(st.sampled_from(KINDS)), "n": n, "via": draw(st.sampled_from(["setup", "class"]))}


def lab(case):
    return {"kind": case["kind"], "order": "3-8" if case["n"] <= 8 else "9-24" if case["n"] <= 24 else ">24"}


def c_exact(case, ctx):
    n, kind = case["n"], case["kind"]
    w, xi, eta = rule(kind, n, case["via"])
    need(np.all(w > 0), "a weight is not positive")
    close(w.sum(), 4.0, 1e-12, "sum of the weights")
    need(np.all(np.abs(xi) <= 1) and np.all(np.abs(eta) <= 1), "a point lies outside the reference square")
    d = ref.exact_degree(kind, n)
    M = (L.legvander(xi, d) * w[:, None]).T @ L.legvander(eta, d)
    E = np.zeros((d + 1, d + 1))
    E[0, 0] = 4.0
    close(M, E, 2e-12, f"{kind} order {n}: integrals of P_a(xi) P_b(eta), a,b <= {d}", 1.0)
    pts = np.stack([xi, eta], 1)
    k = np.unique(np.round(pts, 12), axis=0)
    need(len(k) == n * n, "repeated quadrature points")
    if kind == "gauss-jacobi":
        for c in ref.N4:
            need(np.any(np.all(np.abs(pts - np.array(c)) <= 1e-14, axis=1)), f"corner {c} is not a quadrature point")
    else:
        need(np.max(np.abs(pts)) < 1, "a Gauss point lies on the boundary")
    return lab(case)


@st.composite
def s_poly(draw):
    c = draw(s_exact())
    c["n"] = draw(st.integers(3, 14))
    d = ref.exact_degree(c["kind"], c["n"])
    c["terms"] = [[draw(st.integers(0, d)), draw(st.integers(0, d)), draw(gen.frac(-3, 3))] for _ in range(draw(st.integers(1, 6)))]
    return c


def c_poly(case, ctx):
    w, xi, eta = rule(case["kind"], case["n"], case["via"])
    got = sum(c * np.sum(w * xi**a * eta**b) for a, b, c in case["terms"])
    f = lambda a: 0.0 if a % 2 else 2.0 / (a + 1)
    exact = sum(c * f(a) * f(b) for a, b, c in case["terms"])
    close(got, exact, 1e-12, f"integral of {case['terms']}", 4 * sum(abs(c) for _, _, c in case["terms"]) + 1e-9)
    l = lab(case)
    l["nontrivial"] = any(c and a % 2 == 0 and b % 2 == 0 for a, b, c in case["terms"])
    return l


@st.composite
def s_hist(draw):
    return {"seq": draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(3, 9), st.booleans()), min_size=2, max_size=8))}


def c_hist(case, ctx):
    """Rules do not depend on which rules were created (or scribbled on) before."""
    from fastvpinns.FE.quadratureformulas_quad2d import Quadratureformulas_Quad2D

    for kind, n, scribble in case["seq"]:
        w, xi, eta = rule(kind, n, "class")
        x, e, ww = ref.rule2d(kind, n)
        idx = ref.match_points(np.stack([xi, eta], 1), np.stack([x, e], 1), 1e-12)
        need(idx is not None, f"{kind} order {n}: unexpected quadrature points")
        close(w, ww[idx], 1e-11, f"{kind} order {n}: weights")
        if scribble:
            w[:] = 7
            xi[:] = 7
            eta[:] = -7
    return {"len": len(case["seq"])}


@st.composite
def s_high(draw):
    n = draw(st.one_of(st.integers(141, 1000), st.integers(1000, 1600), st.sampled_from([999, 1000, 1024, 1025, 1026, 2000])))
    d = ref.exact_degree("gauss-legendre", n)
    a = st.one_of(st.integers(0, d), st.integers(0, 5), st.integers(d - 6, d))
    return {"kind": draw(st.sampled_from(KINDS)), "n": n, "via": draw(st.sampled_from(["setup", "class"])), "ab": draw(st.lists(st.tuples(a, a), min_size=1, max_size=4))}


def c_high(case, ctx):
    n, kind = case["n"], case["kind"]
    w, xi, eta = rule(kind, n, case["via"])
    t = 1e-12 + 2e-14 * n
    need(np.all(w > 0), "a weight is not positive")
    close(w.sum(), 4.0, t, "sum of the weights")
    need(np.all(np.abs(xi) <= 1) and np.all(np.abs(eta) <= 1), "a point lies outside the reference square")
    d = ref.exact_degree(kind, n)
    from scipy.special import eval_legendre

    x, inv = np.unique(xi, return_inverse=True)
    y, jnv = np.unique(eta, return_inverse=True)
    need(len(x) <= 2 * n and len(y) <= 2 * n, "the points are no tensor grid")
    for a, b in case["ab"] + [(2, d - d % 2)]:
        a, b = min(a, d), min(b, d)
        got = float(np.sum(w * eval_legendre(a, x)[inv] * eval_legendre(b, y)[jnv]))
        close(got, 4.0 if a == b == 0 else 0.0, t, f"{kind} order {n}: integral of P_{a}(xi) P_{b}(eta)", 4.0)
    return {"kind": kind, "order": "141-1000" if n <= 1000 else ">1000"}


FACETS = [
    Facet("exactness", s_exact, c_exact, 240, thorough=700, rule="rule x order 3..140: every product P_a P_b up to the rule's degree, positivity, containment, end points; all cases non-trivial"),
    Facet("high-order", s_high, c_high, 24, rule="orders 141..2000: positivity, containment, sum, products of Legendre polynomials of chosen degrees (small, arbitrary, the highest exact ones)"),
    Facet("polynomials", s_poly, c_poly, 1600, rule="random polynomials up to the exact degree in each variable; non-trivial: the integral has a non-zero even term"),
    Facet("history", s_hist, c_hist, 600, rule="sequences of rules, results overwritten in between"),
]
