"""The real command line, run inside the simulation."""
import importlib.machinery
import importlib.util
import os
import sys

from .base import REPO

_module = []


def _script():
    if not _module:
        loader = importlib.machinery.SourceFileLoader("cls1_script", os.path.join(REPO, "cls1"))
        spec = importlib.util.spec_from_loader("cls1_script", loader)
        module = importlib.util.module_from_spec(spec)
        loader.exec_module(module)
        _module.append(module)
    return _module[0]


def main(*argv):
    """What the user's shell does: runs 'cls1 ARGV'."""
    script = _script()
    saved = sys.argv
    sys.argv = ["cls1", *(str(a) for a in argv)]
    try:
        script.main()
    finally:
        sys.argv = saved
        sys.setprofile(None)
        tool = getattr(sys, "monitoring", None)  # a command which fails ends its process with cProfile on
        if tool is not None and tool.get_tool(tool.PROFILER_ID) is not None:
            tool.set_events(tool.PROFILER_ID, 0)
            tool.free_tool_id(tool.PROFILER_ID)
