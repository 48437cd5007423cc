#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--workers N]

Entry point of every check: prepares a controlled environment, then hands over
to sim.runner.  See DESIGN.md."""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
CONTROLLED = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "TQDM_DISABLE": None,
    "PYTHONPATH": None,
    "PYTHONSTARTUP": None,
}


def reexec():
    """Start again with the controlled environment, as a child, so that the
    scratch directory is removed whatever happens to the child."""
    import subprocess

    scratch = tempfile.mkdtemp(prefix="cls1-sim-")
    env = dict(os.environ)
    for key, value in CONTROLLED.items():
        if value is None:
            env.pop(key, None)
        else:
            env[key] = value
    env.setdefault("PYTHONHASHSEED", "0")
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["VERIF_SCRATCH"] = scratch
    env["VERIF_REPO"] = REPO
    env["HOME"] = scratch
    os.makedirs(env["MPLCONFIGDIR"])
    python = PYTHON if os.path.exists(PYTHON) else sys.executable
    child = None
    try:
        child = subprocess.Popen(
            [python, "-B", "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]], env=env, cwd=HERE
        )
        return child.wait()
    finally:
        if child is not None and child.poll() is None:
            child.kill()
            child.wait()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if "VERIF_SCRATCH" not in os.environ:
        sys.exit(reexec())
    sys.path[:0] = [HERE, REPO]
    from sim import runner

    sys.exit(runner.main(sys.argv[1:]))
