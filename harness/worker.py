"""One shard of a check: runs its share of every facet and writes the statistics to a file."""
import importlib
import json
import os
import sys
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "vendor")]


def main():
    prop, tier, shard, nshards, seed, scratch, out = sys.argv[1:8]
    only = sys.argv[8] if len(sys.argv) > 8 else None
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "800"))
    logfd = os.open(os.path.join(scratch, "log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(logfd, 2)
    os.chdir(scratch)
    import engine

    import fastvpinns

    f = os.path.realpath(fastvpinns.__file__)
    if not f.startswith(engine.REPO + os.sep):
        raise SystemExit(f"fastvpinns imported from {f}, not from {engine.REPO}")
    mod = importlib.import_module("props." + prop.lower())
    os.dup2(devnull, 2)
    res = []
    facets = [x for x in mod.FACETS if only in (None, x.name)]
    k = shard % max(1, len(facets))
    for facet in facets[k:] + facets[:k]:
        total = facet.quick if tier == "quick" else facet.thorough
        ns = min(nshards, facet.max_shards, total)
        if shard >= ns:
            continue
        n = total // ns + (1 if shard < total % ns else 0)
        s = (seed * 1000003 + shard * 7919 + zlib.crc32(facet.name.encode())) % (2**63)
        root = os.path.join(scratch, "w")
        os.makedirs(root, exist_ok=True)
        ctx = engine.Ctx(root)
        res.append(engine.run_facet(facet, n, s, ctx, deadline, skip_first=shard > 0))
        with open(out + ".part", "w") as fh:
            json.dump(res, fh)
    os.rename(out + ".part", out)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        with open(sys.argv[7] + ".err", "w") as fh:
            fh.write(traceback.format_exc())
        os._exit(3)
    os._exit(0)
