"""A disk under the simulator's control.

Everything below one directory is opened through the simulator: writes reach the
(real) scratch files only piece by piece, and any piece, opening, removal or
renaming can fail, be torn, find the disk full or be the last thing the process
does.  What a process had not handed over to the kernel dies with it."""
import builtins
import contextlib
import errno
import io
import os
import os.path as _path

_real = {name: getattr(os, name) for name in (
    "open", "write", "read", "close", "lseek", "ftruncate", "remove", "unlink", "rename",
    "replace", "rmdir", "truncate", "stat")}
_real_open = builtins.open

KINDS = ("crash", "crash-after", "enospc", "eio", "eacces")


class SimCrash(BaseException):
    """The simulated process dies here."""


class Disk:
    """FAULTS: [{"at": number of the mutating operation (from 0), "kind", "part"}].

    A full disk stays full until the process ends; other errors occur once.
    SHORT makes every write of the kernel shorter than asked (which is legal)."""

    def __init__(self, root, faults=(), read_faults=(), short=0, run=None):
        self.root = _path.realpath(root)
        self.faults = {f["at"]: f for f in faults}
        self.read_faults = {f["at"]: f for f in read_faults}
        self.short = short
        self.run = run
        self.ops, self.reads = 0, 0
        self.dead = self.full = False
        self.fired = []
        self.log = []

    # -- decisions
    def _fire(self, kind, what):
        self.fired.append(kind)
        if self.run is not None:
            self.run.fault(f"disk: {kind} at {what}")

    def die(self, what="a point without I/O"):
        self.dead = True
        self._fire("crash", what)
        raise SimCrash(what)

    def mutate(self, what, path, size=None):
        """Called before every mutating operation; returns (bytes to write now,
        exception to raise afterwards or None)."""
        if self.dead:
            raise SimCrash("the process is dead")
        fault = self.faults.get(self.ops)
        self.log.append((self.ops, what, _path.basename(str(path)), size))
        self.ops += 1
        if fault is None and self.full and what in ("write", "open"):
            fault = {"kind": "enospc", "part": 0}
            if what == "open":
                fault = None
        if fault is None:
            if size is not None and self.short and size > self.short:
                return self.short, None
            return size, None
        kind = fault["kind"]
        part = None if size is None else max(0, min(size, fault["bytes"] if "bytes" in fault else
                                                    int(fault.get("part", 0) * size)))
        if not (kind == "enospc" and self.full):
            self._fire(kind, what)
        if kind == "enospc":
            self.full = True
            error = OSError(errno.ENOSPC, "No space left on device (injected)")
        elif kind == "eacces":
            error = PermissionError(errno.EACCES, "Permission denied (injected)")
            part = 0
        elif kind == "eio":
            error = OSError(errno.EIO, "Input/output error (injected)")
        else:
            self.dead = True
            error = SimCrash(what)
            if kind == "crash-after":
                part = size
        if size is not None and kind in ("enospc", "eio") and part:
            # the kernel writes a part and says so; the next attempt fails
            if kind == "eio":
                self.faults[self.ops] = {"at": self.ops, "kind": "eio", "part": 0}
            return part, None
        if size is None and kind == "crash-after":
            return True, error
        return (part if size is not None else False), error

    def read(self, what, path):
        if self.dead:
            raise SimCrash("the process is dead")
        fault = self.read_faults.get(self.reads)
        self.reads += 1
        if fault:
            self._fire("read " + fault["kind"], what)
            if fault["kind"] == "emfile":
                raise OSError(errno.EMFILE, "Too many open files (injected)")
            if fault["kind"] == "eacces":
                raise PermissionError(errno.EACCES, "Permission denied (injected)")
            if fault["kind"] == "memory":
                raise MemoryError("injected")
            if fault["kind"] == "interrupt":
                raise KeyboardInterrupt("injected")
            raise OSError(errno.EIO, "Input/output error (injected)")

    # -- seams
    def covers(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, (str, os.PathLike)):
            return False
        path = _path.realpath(os.fspath(path))
        return path == self.root or path.startswith(self.root + os.sep)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if not self.covers(file) or opener is not None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        text = "b" not in mode
        reading, writing = "r" in mode or "+" in mode, any(c in mode for c in "wax+")
        flags = os.O_RDWR if reading and writing else os.O_WRONLY if writing else os.O_RDONLY
        if "w" in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        elif "a" in mode:
            flags |= os.O_CREAT | os.O_APPEND
        elif "x" in mode:
            flags |= os.O_CREAT | os.O_EXCL
        if any(c in mode for c in "wax"):
            happens, error = self.mutate("open", file)
            if error is not None:
                if happens:
                    _real["close"](_real["open"](file, flags | os.O_CLOEXEC, 0o666))
                raise error
        else:
            self.read("open", file)
        raw = _Raw(self, _real["open"](file, flags | os.O_CLOEXEC, 0o666), file, reading, writing)
        if "a" in mode:
            raw.seek(0, 2)
        if buffering == 0:
            return raw
        line = buffering == 1 and text
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if reading and writing:
            buffered = io.BufferedRandom(raw, size)
        elif writing:
            buffered = io.BufferedWriter(raw, size)
        else:
            buffered = io.BufferedReader(raw, size)
        if not text:
            return buffered
        wrapper = io.TextIOWrapper(buffered, encoding, errors, newline, line_buffering=line)
        wrapper.mode = mode
        return wrapper

    def _wrap(self, name, paths):
        original = _real[name]

        def function(*args, **kwargs):
            if not any(self.covers(p) for p in args[:paths]):
                return original(*args, **kwargs)
            happens, error = self.mutate(name, args[0])
            if error is None or happens:
                result = original(*args, **kwargs)
            if error is not None:
                raise error
            return result
        return function

    @contextlib.contextmanager
    def mounted(self):
        saved = builtins.open, io.open
        builtins.open = io.open = self.open
        for name, paths in (("remove", 1), ("unlink", 1), ("rename", 2), ("replace", 2),
                            ("truncate", 1), ("rmdir", 1)):
            setattr(os, name, self._wrap(name, paths))
        try:
            yield self
        finally:
            builtins.open, io.open = saved
            for name in ("remove", "unlink", "rename", "replace", "truncate", "rmdir"):
                setattr(os, name, _real[name])


class _Raw(io.RawIOBase):
    def __init__(self, disk, fd, name, reading, writing):
        self.disk, self.fd, self.name = disk, fd, name
        self._reading, self._writing = reading, writing

    def readable(self):
        return self._reading

    def writable(self):
        return self._writing

    def seekable(self):
        return True

    def fileno(self):
        # callers which bypass the simulated disk must not exist
        raise io.UnsupportedOperation("fileno")

    def readinto(self, buffer):
        self.disk.read("read", self.name)
        data = _real["read"](self.fd, len(buffer))
        buffer[:len(data)] = data
        return len(data)

    def write(self, data):
        data = bytes(data)
        if self.disk.dead:
            return len(data)
        size, error = self.disk.mutate("write", self.name, len(data))
        at = 0
        while at < size:
            at += _real["write"](self.fd, data[at:size])
        if error is not None:
            raise error
        return size

    def seek(self, offset, whence=0):
        return _real["lseek"](self.fd, offset, whence)

    def tell(self):
        return _real["lseek"](self.fd, 0, 1)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        happens, error = self.disk.mutate("truncate", self.name)
        if error is None or happens:
            _real["ftruncate"](self.fd, size)
        if error is not None:
            raise error
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                _real["close"](self.fd)
