#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-v] | run.py PROPERTY --replay FILE"""
import os
import sys

ENV = dict(
    LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="",
    MLFLOW_DISABLE_TELEMETRY="true", DO_NOT_TRACK="true", GIT_PYTHON_REFRESH="quiet",
)
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)

import argparse
import importlib
import json
import warnings
from pathlib import Path

warnings.filterwarnings("ignore")
VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
sys.path.insert(0, "/repo")
sys.path = [p for p in sys.path if Path(p or ".").resolve() != VERIF / "checks"]


def load(prop):
    mods = [f for f in sorted((VERIF / "checks").glob("p_*.py")) if f.stem.startswith(f"p_{prop.lower()}_") or f.stem == f"p_{prop.lower()}"]
    if not mods:
        raise SystemExit(f"no check for {prop}")
    for m in mods:
        importlib.import_module(f"checks.{m.stem}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--json", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if not a.replay:
        from symq import shadow

        shadow.patch()
    from symq import runner

    import qadence

    assert qadence.__file__.startswith("/repo/"), qadence.__file__
    import logging

    logging.disable(logging.WARNING)
    load(a.prop)
    if a.replay:
        d = json.loads(Path(a.replay).read_text())
        ob = next(o for o in runner.REG if o.prop == d["property"] and o.name == d["obligation"])
        fails = runner.concrete_verdict(ob, d["values"])
        if a.json:
            print("REPLAY " + json.dumps(fails))
        else:
            for f in fails:
                print(f"{ob.name}: {f[1]}")
            print("reproduced" if fails else "not reproduced")
        sys.exit(1 if fails else 0)
    sys.exit(runner.main(a.prop, a.tier, a.only, a.jobs, a.v))


if __name__ == "__main__":
    main()
