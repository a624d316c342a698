#!/usr/bin/env python3
"""check.py P01 [--tier quick|thorough] [--replay FILE] [--runs N] [--workers N]"""
import argparse
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"),
    "CUDA_VISIBLE_DEVICES": "-1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_MAX_THREADS": "1",
    "TZ": "UTC",
    "DPSIM_CHILD": "1",
}

if os.environ.get("DPSIM_CHILD") != "1" or any(
    os.environ.get(k) != v for k, v in ENV.items()
):
    os.environ.update(ENV)
    for k in ("DATAPROFILER_SEED", "PYTHONPATH"):
        os.environ.pop(k, None)
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="the package imports, the seams install, one run repeats exactly")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--survey", action="store_true", help="development: list all violation kinds")
    ap.add_argument("--twin", action="store_true", help="internal: helper process")
    ap.add_argument("--show", type=int, help="development: print the plan of a run")
    a = ap.parse_args()
    if a.selftest:
        return core.selftest()
    if a.show is not None:
        import json

        print(json.dumps(core.make_plan(core.load_mod(a.prop), a.seed, a.show, a.tier)))
        return 0
    if a.twin:
        return core.twin_loop(a.prop)
    if a.survey:
        core.survey(a.prop, a.tier, a.seed, a.runs or 200, a.workers)
        return 0
    if a.replay:
        return core.replay(a.prop, a.replay)
    return core.check(a.prop, a.tier, a.seed, a.runs, a.workers, a.wall)


if __name__ == "__main__":
    sys.exit(main())
