#!/usr/bin/env python3
"""Run checks against the planted changes in seeded/ (in a scratch clone): tools/catch.py [--all] [--tier T] [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))


def sh(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def main():
    args = sys.argv[1:]
    every = "--all" in args
    tier = args[args.index("--tier") + 1] if "--tier" in args else "quick"
    ids = [a for a in args if not a.startswith("--") and a != tier] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    claimed = [c["property"] for c in manifest["checks"]]
    wt = tempfile.mkdtemp(prefix="catch", dir="/tmp")
    try:
        sh("git", "clone", "-q", "/repo", wt + "/r")
        for i in ids:
            d = os.path.join(HERE, "seeded", i)
            meta = json.load(open(d + "/meta.json"))
            a = sh("git", "-C", wt + "/r", "apply", d + "/patch.diff")
            if a.returncode:
                print(i, "does not apply", a.stderr)
                continue
            hits = []
            for p in claimed if every else [meta["property"]]:
                r = sh(sys.executable, "check.py", "--property", p, "--tier", tier, cwd=HERE,
                       env=dict(os.environ, WEAC_REPO=wt + "/r", VERIF_SCRATCH=wt))
                last = [x.strip()[:170] for x in r.stdout.splitlines() if "detail" in x]
                hits.append(f"{p}:{r.returncode}" + (" " + last[0] if last and not every else ""))
            print(i, "|", meta["property"], "|", "  ".join(hits), flush=True)
            sh("git", "-C", wt + "/r", "checkout", "-q", "--", ".")
    finally:
        shutil.rmtree(wt)


if __name__ == "__main__":
    main()
