"""Import the code under test in a process of its own and report what that changed (run as a script)."""
import json
import os
import sys
import tempfile


def main():
    repo, changes, order = json.loads(sys.argv[1])
    sys.path.insert(0, os.path.realpath(os.path.join(os.path.dirname(__file__), "..")))
    sys.path.insert(0, repo)
    sys.stdout.flush()
    # everything the code builds on is there already: what it changes on import is its own business
    import matplotlib.colors        # noqa
    import matplotlib.pyplot as plt     # noqa
    import numpy                    # noqa
    import scipy.integrate          # noqa
    import scipy.optimize           # noqa
    import IPython                  # noqa
    from sim import ambient as A
    out = sys.stdout
    with tempfile.TemporaryDirectory() as d:
        for c in changes:
            A.apply(c, d)
        plt.rcParams["lines.linewidth"] = 2.75
        files = sorted(os.listdir("."))
        a, fds, rc = A.snapshot(), A.open_files(), dict(plt.rcParams)
        import importlib
        for m in order:
            importlib.import_module(m)
        b = A.snapshot()
        bad = [f"{k}: {a[k]} -> {b[k]}" for k in A.changed(a, b) if k not in ("import path",)]
        bad += [f"open files: {x}" for x in A.leaked_files(fds)]
        if dict(plt.rcParams) != rc:
            bad.append("matplotlib parameters")
        if plt.get_fignums():
            bad.append("figures")
        if sorted(os.listdir(".")) != files:
            bad.append("files in the working directory")
        os.chdir("/")
    sys.stdout = out
    print(json.dumps({"bad": bad, "file": sys.modules["weac"].__file__}))


if __name__ == "__main__":
    main()
