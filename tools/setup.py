#!/usr/bin/env python3
"""Check that the sandbox can run the simulator (nothing has to be built: the code under test is Python)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, HERE)
from sim import env  # noqa

out = subprocess.run([env.PYTHON, "-c", "from sim import env; w, s = env.load(); import numpy, scipy, matplotlib; "
                      "print('weac from', w.__file__, numpy.__version__, scipy.__version__, matplotlib.__version__)"],
                     cwd=HERE, env=dict(os.environ, **env.FIXED_ENV))
sys.exit(out.returncode)
