#!/usr/bin/env python3
"""Sanity of the environment: everything a check imports can be imported. The
checks have nothing to build; they import the code from /repo's working tree."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]
import matplotlib, numpy, pandas, torch, tqdm  # noqa
from sim import runner  # noqa

os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("environment ready:", sys.version.split()[0], "numpy", numpy.__version__, "torch",
      torch.__version__)
