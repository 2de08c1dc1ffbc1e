"""Engine of the property checks: facets, case execution, violations, statistics.

A property is a list of facets.  A facet has a Hypothesis strategy which produces JSON-able
cases and a `check(case, ctx)` which raises Violation if the property is broken for the case and
otherwise returns labels which classify it.  Everything random comes from the strategy, so a case
alone replays a failure (`run.py PROP --replay FILE` does not use Hypothesis at all).
"""
import contextlib
import json
import os
import shutil
import signal
import sys
import time
import traceback
import zlib

import numpy as np

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class Violation(Exception):
    """The property does not hold for this case."""


class _Stop(BaseException):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_seed(case):
    return zlib.crc32(canon(case).encode()) & 0x7FFFFFFF


@contextlib.contextmanager
def sut(what="the call"):
    """Calls into the code under test which must succeed: an exception there breaks the property."""
    try:
        yield
    except Violation:
        raise
    except Exception as e:
        if getattr(e, "_vp_user", False):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "fastvpinns" in f.filename]
        raise Violation(
            f"{what} raised {type(e).__name__}: {str(e)[:300]} (at {', '.join(loc[-3:])})"
        ) from e


def fail(msg):
    raise Violation(msg)


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def arr(x, shape=None, what="array", dtype=np.float64, finite=True):
    """A result of the code under test as a numpy array of the expected shape."""
    try:
        if hasattr(x, "numpy"):
            x = x.numpy()
        a = np.asarray(x, dtype=dtype)
    except Exception as e:
        raise Violation(f"{what}: not a numeric array ({type(e).__name__}: {str(e)[:120]})")
    if shape is not None:
        ok = a.ndim == len(shape) and all(s is None or s == t for s, t in zip(shape, a.shape))
        need(ok, lambda: f"{what}: shape {a.shape}, expected {tuple(shape)}")
    if finite:
        need(np.all(np.isfinite(a)), lambda: f"{what}: contains non-finite values")
    return a


def close(got, ref, tol, what, scale=None):
    """|got-ref| <= tol*scale elementwise; scale defaults to max|ref| (at least tiny)."""
    got = np.asarray(got, dtype=np.float64)
    ref = np.asarray(ref, dtype=np.float64)
    if got.shape != ref.shape:
        try:
            np.broadcast_shapes(got.shape, ref.shape)
        except ValueError:
            fail(f"{what}: shape {got.shape}, expected {ref.shape}")
    if ref.size == 0 and got.size == 0:
        return
    if scale is None:
        scale = np.max(np.abs(ref)) if ref.size else 0.0
    bound = tol * np.maximum(scale, 1e-300)
    bad = ~(np.abs(got - ref) <= bound)
    if np.any(bad):
        d = np.where(np.isfinite(got - ref), np.abs(got - ref), np.inf) / np.broadcast_to(bound, np.broadcast_shapes(got.shape, ref.shape, np.shape(bound)))
        k = np.unravel_index(np.argmax(d), d.shape)
        g = np.broadcast_to(got, d.shape)[k]
        r = np.broadcast_to(ref, d.shape)[k]
        fail(f"{what}: at {tuple(int(i) for i in k)} got {g!r}, expected {r!r} (error/bound {d[k]:.3g}, {int(bad.sum())} entries)")


class Ctx:
    """Per-case context: scratch directory inside the worker's scratch directory."""

    def __init__(self, root):
        self.root = root
        self.n = 0
        self._cur = []

    def tmp(self):
        self.n += 1
        d = os.path.join(self.root, f"c{self.n}")
        os.makedirs(d)
        self._cur.append(d)
        return d

    def clean(self):
        for d in self._cur:
            shutil.rmtree(d, ignore_errors=True)
        self._cur = []


class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", max_shards=8):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 8
        self.rule = rule
        self.max_shards = max_shards


def _seed_everything(case):
    s = case_seed(case)
    np.random.seed(s % (2**31))
    import random

    random.seed(s)
    if "tensorflow" in sys.modules:
        sys.modules["tensorflow"].random.set_seed(s)


def _from_sut(e):
    """Whether an exception's innermost interesting frames belong to the code under test."""
    pkg = os.path.join(REPO, "fastvpinns") + os.sep
    for f, _ in traceback.walk_tb(e.__traceback__):
        if os.path.realpath(f.f_code.co_filename).startswith(pkg):
            return True
    return False


CASE_LIMIT_S = 240  # ordinary cases take milliseconds to a few seconds


def _too_long(signum, frame):
    raise Violation(f"the case did not finish within {CASE_LIMIT_S} s")


def run_case(facet, case, ctx):
    """Execute one case.  Returns labels; raises Violation, or another exception (harness error)."""
    _seed_everything(case)
    cwd = os.getcwd()
    work = ctx.tmp()
    os.chdir(work)
    old = signal.signal(signal.SIGALRM, _too_long)
    signal.alarm(CASE_LIMIT_S)
    try:
        return facet.check(case, ctx) or {}
    except Violation:
        raise
    except Exception as e:
        if _from_sut(e):
            raise Violation(
                f"raised {type(e).__name__}: {str(e)[:300]}"
            ) from e
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
        ctx.clean()


def run_facet(facet, n, seed, ctx, deadline, shrink_s=40.0, skip_first=False):
    """`skip_first`: leave out Hypothesis's first example, which is the simplest one whatever the
    seed is, so that the shards after the first do not all repeat it."""
    import warnings

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    st = {
        "facet": facet.name,
        "rule": facet.rule,
        "evaluations": 0,
        "nontrivial": [],
        "labels": {},
        "samples": [],
        "skipped_budget": 0,
        "violation": None,
        "error": None,
        "wall_s": 0.0,
    }
    seen = set()
    best = {"case": None, "msg": None, "len": None, "t": None}
    t0 = time.time()

    first = [skip_first]

    def body(case):
        if first[0]:
            first[0] = False
            return
        now = time.time()
        if best["t"] is not None and now - best["t"] > shrink_s:
            raise _Stop()
        if best["t"] is None and now > deadline:
            st["skipped_budget"] += 1
            return
        try:
            labels = run_case(facet, case, ctx)
        except Violation as v:
            L = len(canon(case))
            if best["t"] is None:
                best["t"] = time.time()
            if best["len"] is None or L <= best["len"]:
                best.update(case=case, msg=str(v), len=L)
            raise
        if best["t"] is not None:
            return
        st["evaluations"] += 1
        key = zlib.crc32(canon(case).encode())
        nt = labels.pop("nontrivial", True)
        for k, v in labels.items():
            lk = f"{k}={v}"
            st["labels"][lk] = st["labels"].get(lk, 0) + 1
        if nt and key not in seen:
            seen.add(key)
            if len(st["samples"]) < 2 and len(canon(case)) < 4000:
                st["samples"].append(case)

    phases = (Phase.generate, Phase.shrink)
    test = settings(
        max_examples=n + bool(skip_first),
        deadline=None,
        database=None,
        phases=phases,
        suppress_health_check=list(HealthCheck),
        print_blob=False,
        report_multiple_bugs=False,
    )(hypothesis.seed(seed)(given(facet.strategy())(body)))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as e:  # harness error, unless a violation was seen first
        if best["case"] is None:
            st["error"] = "".join(traceback.format_exception(e))[-4000:]
            if isinstance(e, KeyboardInterrupt):
                raise
    if best["case"] is not None:
        st["violation"] = {"case": best["case"], "message": best["msg"]}
    st["nontrivial"] = sorted(seen)
    st["wall_s"] = time.time() - t0
    return st
