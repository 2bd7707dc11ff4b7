#!/usr/bin/env python3
"""Same seeds, other worker counts and another hash seed: every run must produce the identical log. tools/determinism.py [ids]"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))


def once(pid, runs, **e):
    r = subprocess.run([sys.executable, "check.py", "--property", pid, "--runs", str(runs)], cwd=HERE, capture_output=True,
                       text=True, check=False, env=dict(os.environ, **e))
    ev = json.load(open(os.path.join(HERE, "evidence", pid + ".json")))["coverage"]
    return r.returncode, ev["log_digest"], ev["log_events"]


def main():
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    bad = 0
    for c in man["checks"]:
        pid = c["property"]
        if len(sys.argv) > 1 and pid not in sys.argv[1:]:
            continue
        a = once(pid, 48, PYTHONHASHSEED="0", VERIF_WORKERS="8")
        b = once(pid, 48, PYTHONHASHSEED="4711", VERIF_WORKERS="3")
        print(pid, a, b, "same" if a == b else "DIFFERENT", flush=True)
        bad += a != b
    return bad


if __name__ == "__main__":
    sys.exit(main())
