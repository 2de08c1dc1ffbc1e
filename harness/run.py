"""run.py PROP [--tier quick|thorough] [--seed N] [--shards N] [--facet NAME]
   run.py PROP --replay FILE

Exit 0: the property held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: error of the check itself.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def environment(scratch):
    env = dict(os.environ)
    repo = env.get("VERIF_REPO", "/repo")
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=repo,
        MPLBACKEND="Agg",
        CUDA_VISIBLE_DEVICES="-1",
        TF_CPP_MIN_LOG_LEVEL="3",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TF_NUM_INTRAOP_THREADS="1",
        TF_NUM_INTEROP_THREADS="1",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
        VERIF_REPO=repo,
    )
    return env


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as fh:
        return [k for k in json.load(fh)["findings"] if k["property"] == prop]


def replay(prop, path):
    scratch = tempfile.mkdtemp(prefix="vp_")
    try:
        env = environment(scratch)
        if os.environ.get("_VP_REPLAY") != "1":
            env["_VP_REPLAY"] = "1"
            return subprocess.call([PY, os.path.abspath(__file__), prop, "--replay", os.path.abspath(path)], env=env, cwd=scratch)
        sys.path[:0] = [HERE, os.path.join(ROOT, "vendor")]
        import engine

        with open(path) as fh:
            r = json.load(fh)
        mod = importlib.import_module("props." + prop.lower())
        facet = next(f for f in mod.FACETS if f.name == r["facet"])
        try:
            engine.run_case(facet, r["case"], engine.Ctx(scratch))
        except engine.Violation as v:
            print(f"{prop}/{r['facet']}: {v}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("the case passes")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--facet")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.prop, a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp_")
    try:
        return check(a, tier, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(a, tier, t0, scratch):
    env = environment(scratch)
    procs = []
    for s in range(a.shards):
        d = os.path.join(scratch, f"s{s}")
        os.makedirs(d)
        out = os.path.join(d, "out.json")
        cmd = [PY, os.path.join(HERE, "worker.py"), a.prop, tier, str(s), str(a.shards), str(a.seed), d, out]
        if a.facet:
            cmd.append(a.facet)
        procs.append((s, d, out, subprocess.Popen(cmd, env=env, cwd=d, stdin=subprocess.DEVNULL)))
    results, errors = [], []
    for s, d, out, p in procs:
        rc = p.wait()
        if os.path.exists(out):
            with open(out) as fh:
                results += json.load(fh)
        else:
            if os.path.exists(out + ".part"):  # what finished before the shard died still counts
                with open(out + ".part") as fh:
                    try:
                        results += json.load(fh)
                    except ValueError:
                        pass
            msg = f"shard {s} ended with {rc} and no result\n"
            for f in (out + ".err", os.path.join(d, "log")):
                if os.path.exists(f):
                    with open(f) as fh:
                        msg += fh.read()[-2500:]
            errors.append(msg)
    errors += [f"{r['facet']}: {r['error']}" for r in results if r["error"]]

    sys.path[:0] = [HERE]
    facets, samples, labels = {}, [], {}
    for r in results:
        f = facets.setdefault(r["facet"], {"evaluations": 0, "nt": set(), "labels": {}, "skipped_for_time": 0, "wall_s": 0.0})
        f["evaluations"] += r["evaluations"]
        f["nt"].update(r["nontrivial"])
        f["skipped_for_time"] += r["skipped_budget"]
        f["wall_s"] += r["wall_s"]
        for k, v in r["labels"].items():
            f["labels"][k] = f["labels"].get(k, 0) + v
    done = set()
    for r in results:
        if r["facet"] not in done and r["samples"]:
            samples.append({"facet": r["facet"], "case": r["samples"][-1]})
            done.add(r["facet"])
    violations = sorted(
        (r for r in results if r["violation"]),
        key=lambda r: (r["facet"], len(json.dumps(r["violation"]["case"]))),
    )
    lines = []
    seen_facets = set()
    for r in violations:
        if r["facet"] in seen_facets:
            continue
        seen_facets.add(r["facet"])
        rec = {"property": a.prop, "facet": r["facet"], "case": r["violation"]["case"], "message": r["violation"]["message"], "seed": a.seed}
        rd = os.path.join(ROOT, "replays", a.prop)
        os.makedirs(rd, exist_ok=True)
        h = zlib.crc32(json.dumps(rec["case"], sort_keys=True).encode())
        path = os.path.join(rd, f"{r['facet']}-{h:08x}.json")
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1)
        print(f"{a.prop}/{r['facet']}: {r['violation']['message']}")
        lines.append(f"VIOLATION property={a.prop} replay={path}")
    rules = "; ".join(f"[{k}] {v}" for k, v in sorted({r["facet"]: r["rule"] for r in results}.items()))
    ev = {
        "property": a.prop,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in facets.values()),
            "distinct_nontrivial": sum(len(f["nt"]) for f in facets.values()),
            "rule": rules,
            "samples": samples,
            "per_facet": {
                k: {
                    "evaluations": f["evaluations"],
                    "distinct_nontrivial": len(f["nt"]),
                    "skipped_for_time": f["skipped_for_time"],
                    "cpu_s": round(f["wall_s"], 1),
                    "labels": dict(sorted(f["labels"].items())),
                }
                for k, f in sorted(facets.items())
            },
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{a.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in known_findings(a.prop):
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    print(
        f"{a.prop} {tier} seed={a.seed}: {ev['coverage']['evaluations']} cases, "
        f"{ev['coverage']['distinct_nontrivial']} distinct non-trivial, {len(lines)} violation(s), {ev['wall_s']} s"
    )
    if a.v:
        for k, f in ev["coverage"]["per_facet"].items():
            print("  ", k, f)
    for x in lines:
        print(x)
    if lines:
        return 1
    if errors:
        print("CHECK ERROR\n" + "\n".join(errors)[:6000], file=sys.stderr)
        return 2
    if not ev["coverage"]["evaluations"]:
        print("CHECK ERROR: nothing was explored", file=sys.stderr)
        return 2
    return 0


ASSUMPTIONS = [
    "numpy, scipy, TensorFlow (as a numerical library and for automatic differentiation), meshio's parsers and Hypothesis are trusted",
    "results are compared with the stated relative tolerances; deviations below them are not seen",
    "absence of violations is shown only for the generated cases",
]


if __name__ == "__main__":
    sys.exit(main())
