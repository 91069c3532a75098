#!/usr/bin/env python3
"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--test NAME]

Exit 0: the property held on everything explored.  Exit 1 and a line
'VIOLATION property=<id> replay=<path>': it is broken.  Anything else is an
error of the check itself.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("RASCAL_REPO", "/repo")

ENV = {
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "PYTHONWARNINGS": "ignore",
    "TQDM_DISABLE": "1",
}


def main():
    if os.environ.get("RASCAL_VERIF_ENV") != "1":
        env = dict(os.environ, RASCAL_VERIF_ENV="1", **ENV)
        env.pop("PYTHONPATH", None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.path.insert(1, HERE)
    from vlib import deps

    deps.ensure()
    from vlib import core

    sys.exit(core.main(sys.argv[1:], HERE, REPO))


main()
