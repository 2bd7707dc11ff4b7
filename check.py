#!/usr/bin/env python3
"""check.py --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]"""
import argparse
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
from sim import env  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if os.environ.get("VERIF_STAGE2") != "1":
        e = dict(os.environ, VERIF_STAGE2="1", **env.FIXED_ENV)
        e.setdefault("PYTHONHASHSEED", "0")
        os.execve(env.PYTHON, [env.PYTHON, os.path.realpath(__file__)] + sys.argv[1:], e)
    from sim import runner
    scratch = tempfile.mkdtemp(prefix="weacsim-", dir=runner.SCRATCH)
    os.environ["VERIF_RUN_SCRATCH"] = scratch
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(scratch, "mpl"))
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    src = os.path.expanduser("~/.cache/matplotlib")
    if os.path.isdir(src):      # font cache only, saves a second
        for f in os.listdir(src):
            if f.startswith("fontlist"):
                shutil.copy(os.path.join(src, f), os.environ["MPLCONFIGDIR"])
    me = os.getpid()
    try:
        if a.replay:
            return runner.replay(a.property, a.replay)
        return runner.check(a.property, a.tier, a.seed, a.workers, a.runs)
    except KeyboardInterrupt:
        return 2
    except BaseException:       # noqa
        if os.getpid() == me:
            import traceback
            traceback.print_exc()
        return 2
    finally:
        if os.getpid() == me:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
