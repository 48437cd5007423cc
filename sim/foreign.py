"""Another Python process with another hash seed, which never ran any of the
simulated history: references computed there cannot depend on it.

The server is started once per check; it forks one child per request."""
import ctypes
import importlib
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import traceback

from .base import REPO, HarnessError, Violation, passes_repo

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_path = []


def start(modules):
    """Starts the server, which dies with this process."""
    path = os.path.join(os.environ["VERIF_SCRATCH"], f"foreign-{os.getpid()}")
    env = dict(os.environ, PYTHONHASHSEED="4711", PYTHONPATH=os.pathsep.join([HERE, REPO]))
    process = subprocess.Popen(
        [sys.executable, "-B", "-W", "ignore", "-m", "sim.foreign", path, str(os.getpid()), *modules],
        env=env, cwd=HERE, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE)
    if process.stdout.readline().strip() != b"ready":
        raise HarnessError("the other process does not start")
    _path[:] = [path]


def _read(stream):
    size = b""
    while len(size) < 8:
        part = stream.recv(8 - len(size))
        if not part:
            raise HarnessError("the other process ended")
        size += part
    data = bytearray()
    n, = struct.unpack("<q", size)
    while len(data) < n:
        part = stream.recv(min(1 << 20, n - len(data)))
        if not part:
            raise HarnessError("the other process ended")
        data += part
    return pickle.loads(bytes(data))


def _write(stream, value):
    data = pickle.dumps(value)
    stream.sendall(struct.pack("<q", len(data)) + data)


def call(function, *args):
    """Runs FUNCTION there, in a child of its own."""
    with socket.socket(socket.AF_UNIX) as stream:
        stream.connect(_path[0])
        _write(stream, (os.getcwd(), function.__module__, function.__name__, args))
        status, result = _read(stream)
    if status == "raise":
        raise result
    if status == "error":
        raise HarnessError("in the other process:\n" + result)
    return result


def _answer(stream):
    try:
        directory, module, name, args = _read(stream)
        os.chdir(directory)
        try:
            answer = ("ok", getattr(importlib.import_module(module), name)(*args))
        except Exception as error:
            text = traceback.format_exc()
            answer = ("error", text)
            if passes_repo(error):
                answer = ("raise", Violation("unexpected-" + type(error).__name__, f"{error}"[:500],
                                             traceback=text[-3000:]))
        _write(stream, answer)
    finally:
        os._exit(0)


def serve(path, parent, modules):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    if os.getppid() != parent:
        return
    for module in modules:
        importlib.import_module(module)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    server = socket.socket(socket.AF_UNIX)
    server.bind(path)
    server.listen(64)
    print("ready", flush=True)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    while True:
        stream, _ = server.accept()
        if os.fork() == 0:
            server.close()
            _answer(stream)
        stream.close()


if __name__ == "__main__":
    serve(sys.argv[1], int(sys.argv[2]), sys.argv[3:])
