"""Reference implementations, written from the definitions and sharing nothing with the code under test."""
import numpy as np
from numpy.polynomial import chebyshev as C
from numpy.polynomial import legendre as L

FAMILIES = ["legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain"]
BUBBLES = ["legendre", "jacobi", "legendre_special", "chebyshev_2"]


def coef1d(fam, m):
    """Coefficients of the m-th (1-based) 1D test function in the family's own polynomial basis."""
    if fam == "jacobi_plain":
        c = np.zeros(m)
        c[m - 1] = 1.0
    else:
        c = np.zeros(m + 2)
        c[m + 1] += 1.0
        c[m - 1] -= 1.0
    return c


def basis1d(fam, n, x, k=0):
    """k-th derivative of the n 1D test functions of a family at x: array (n, len(x))."""
    cheb = fam == "chebyshev_2"
    out = []
    for m in range(1, n + 1):
        c = coef1d(fam, m)
        if k:
            c = (C.chebder if cheb else L.legder)(c, k)
        out.append((C.chebval if cheb else L.legval)(x, c))
    return np.array(out).reshape(n, len(x))


DER = {"value": (0, 0), "gradx": (1, 0), "grady": (0, 1), "gradxx": (2, 0), "gradxy": (1, 1), "gradyy": (0, 2)}


def basis2d(fam, n, xi, eta, which):
    """Values and per-row scale (max of the 1D factors over the reference interval)."""
    a, b = DER[which]
    X = basis1d(fam, n, xi, a)
    Y = basis1d(fam, n, eta, b)
    g = np.concatenate([np.linspace(-1, 1, 41), [-1.0, 1.0]])
    sx = np.maximum(np.abs(basis1d(fam, n, g, a)).max(1), 1.0)
    sy = np.maximum(np.abs(basis1d(fam, n, g, b)).max(1), 1.0)
    val = (X[:, None, :] * Y[None, :, :]).reshape(n * n, len(xi))
    sc = (sx[:, None] * sy[None, :]).reshape(n * n, 1)
    return val, sc


def gauss2d(n):
    x, w = L.leggauss(n)
    xi, eta = np.meshgrid(x, x)
    return xi.ravel(), eta.ravel(), np.outer(w, w).ravel()


def lobatto1d(n):
    c = np.zeros(n)
    c[n - 1] = 1.0
    d = L.legder(c)
    x = np.sort(np.real(L.legroots(d)))
    for _ in range(5):  # polish
        x = x - L.legval(x, d) / L.legval(x, L.legder(d))
    x = np.concatenate([[-1.0], x, [1.0]])
    w = 2.0 / (n * (n - 1) * L.legval(x, c) ** 2)
    return x, w


def rule2d(kind, n):
    x, w = L.leggauss(n) if kind == "gauss-legendre" else lobatto1d(n)
    xi, eta = np.meshgrid(x, x)
    return xi.ravel(), eta.ravel(), np.outer(w, w).ravel()


def exact_degree(kind, n):
    return 2 * n - 1 if kind == "gauss-legendre" else 2 * n - 3


N4 = [(-1, -1), (1, -1), (1, 1), (-1, 1)]


def qmap(v, xi, eta):
    """Bilinear map of the reference square onto the quadrilateral with vertices v (4x2)."""
    v = np.asarray(v, dtype=np.float64)
    xi = np.asarray(xi, dtype=np.float64)
    eta = np.asarray(eta, dtype=np.float64)
    # relative to vertex 0, for accuracy far from the origin
    d = v - v[0]
    s = [(1 + a * xi) * (1 + b * eta) / 4 for a, b in N4]
    x = sum(s[k] * d[k, 0] for k in range(4))
    y = sum(s[k] * d[k, 1] for k in range(4))
    return x + v[0, 0], y + v[0, 1]


def qjac(v, xi, eta):
    """x_xi, x_eta, y_xi, y_eta at the reference points."""
    v = np.asarray(v, dtype=np.float64)
    d = v - v[0]
    xi = np.asarray(xi, dtype=np.float64)
    eta = np.asarray(eta, dtype=np.float64)
    dxi = [a * (1 + b * eta) / 4 for a, b in N4]
    deta = [b * (1 + a * xi) / 4 for a, b in N4]
    xx = sum(dxi[k] * d[k, 0] for k in range(4))
    xe = sum(deta[k] * d[k, 0] for k in range(4))
    yx = sum(dxi[k] * d[k, 1] for k in range(4))
    ye = sum(deta[k] * d[k, 1] for k in range(4))
    return xx, xe, yx, ye


def area(v):
    v = np.asarray(v, dtype=np.float64)
    d = v - v[0]
    x, y = d[:, 0], d[:, 1]
    return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)


def diam(v):
    v = np.asarray(v, dtype=np.float64)
    return max(np.hypot(*(v[i] - v[j])) for i in range(4) for j in range(4))


class Poly:
    """Polynomial in the scaled coordinates s=(x-cx)/h, t=(y-cy)/h; terms: list of [a, b, coefficient]."""

    def __init__(self, spec):
        self.cx, self.cy, self.h = spec["cx"], spec["cy"], spec["h"]
        self.terms = [(int(a), int(b), float(c)) for a, b, c in spec["terms"]]

    @property
    def degree(self):
        return max([a + b for a, b, c in self.terms], default=0)

    def __call__(self, x, y):
        return self.d(x, y, 0, 0)

    def d(self, x, y, p, q):
        s = (x - self.cx) / self.h
        t = (y - self.cy) / self.h
        r = 0.0 * (s + t)
        for a, b, c in self.terms:
            if a < p or b < q:
                continue
            f = c
            for k in range(p):
                f *= a - k
            for k in range(q):
                f *= b - k
            r = r + f * s ** (a - p) * t ** (b - q)
        return r / self.h ** (p + q)


def match_points(P, Q, tol):
    """For each row of P the index of the equal row of Q (a bijection), or None."""
    P = np.asarray(P)
    Q = np.asarray(Q)
    if P.shape != Q.shape:
        return None
    d = np.abs(P[:, None, :] - Q[None, :, :]).max(-1)
    idx = d.argmin(1)
    if np.any(d[np.arange(len(P)), idx] > tol) or len(set(idx.tolist())) != len(P):
        return None
    return idx
