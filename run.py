#!/opt/venv/bin/python
"""run.py CHECK_ID [--tier quick|thorough] [--only NAME] [--scale F] | --replay FILE | --list"""
import os
import sys

os.environ.update(
    {k: "1" for k in ["OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS", "NUMEXPR_MAX_THREADS", "PYTHONDONTWRITEBYTECODE"]}
)
os.environ["OMP_WAIT_POLICY"] = "PASSIVE"
if os.environ.get("PYTHONHASHSEED") != "0" or "PYTHONPATH" in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ.pop("PYTHONPATH", None)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.dont_write_bytecode = True

import argparse
import shutil
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()

    sys.path.insert(0, str(HERE))
    # hypothesis (and sortedcontainers) only; everything else comes from /opt/venv
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    scratch = Path(tempfile.mkdtemp(prefix="glumtree"))
    try:
        from pbt import build

        try:
            build.prepare(scratch)
        except build.BuildError as e:
            print("BUILD ERROR", e, file=sys.stderr)
            return 2
        sys.path.insert(0, str(scratch))
        import glum

        assert Path(glum.__file__).parent.parent == scratch, glum.__file__
        from pbt import core

        if a.replay:
            return core.replay(a.replay)
        return core.run_property(a.prop, a.tier, a.seed, a.only, a.scale)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
