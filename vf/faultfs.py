"""A remote filesystem (fsspec, protocol vffault://) kept in memory, which can fail.

Written data appear when the file is closed and writing cannot seek, as in object stores. PLAN selects one operation
(open-r, open-w, read, write, close-w) by number to fail with OSError; operations and open
files are counted."""
import errno
import io

import fsspec
from fsspec.spec import AbstractFileSystem


class InjectedFault(OSError):
    pass


class Plan:
    def __init__(self):
        self.reset()

    def reset(self, op=None, at=None):
        self.op, self.at = op, at
        self.counts = {}
        self.fired = 0
        self.open_files = 0
        self.chunk = None

    def hit(self, op, path):
        n = self.counts[op] = self.counts.get(op, 0) + 1
        if op == self.op and n == self.at:
            self.fired += 1
            raise InjectedFault(5, f"injected fault: {op} number {n} of {path}")


PLAN = Plan()
FILES = {}


class _Reader(io.BytesIO):
    def __init__(self, path):
        super().__init__(FILES[path])
        self.path = path
        PLAN.open_files += 1

    def read(self, n=-1):
        PLAN.hit("read", self.path)
        return super().read(n)

    def readline(self, n=-1):
        PLAN.hit("read", self.path)
        return super().readline(n)

    def readinto(self, b):
        PLAN.hit("read", self.path)
        return super().readinto(b)

    def read1(self, n=-1):
        PLAN.hit("read", self.path)
        return super().read1(n)

    def close(self):
        if not self.closed:
            PLAN.open_files -= 1
        super().close()


class _Writer(io.BytesIO):
    def __init__(self, path):
        super().__init__()
        self.path = path
        PLAN.open_files += 1

    def write(self, b):
        PLAN.hit("write", self.path)
        return super().write(b)

    def seekable(self):
        return False

    def readable(self):
        return False

    def seek(self, *args):
        raise OSError(errno.ESPIPE, "Seek only available in read mode")

    truncate = read = readline = readlines = readinto = read1 = seek

    def close(self):
        if self.closed:
            return
        PLAN.open_files -= 1
        data = self.getvalue()
        super().close()
        PLAN.hit("close-w", self.path)
        FILES[self.path] = data


class FaultFS(AbstractFileSystem):
    protocol = "vffault"
    cachable = False

    @classmethod
    def _strip_protocol(cls, path):
        if path.startswith("vffault://"):
            path = path[len("vffault://"):]
        return path.strip("/")

    def _open(self, path, mode="rb", **kwargs):
        path = self._strip_protocol(path)
        if "r" in mode:
            PLAN.hit("open-r", path)
            if path not in FILES:
                raise FileNotFoundError(path)
            return _Reader(path)
        PLAN.hit("open-w", path)
        return _Writer(path)

    def info(self, path, **kwargs):
        path = self._strip_protocol(path)
        if path in FILES:
            return {"name": path, "size": len(FILES[path]), "type": "file"}
        if any(f.startswith(path + "/") for f in FILES):
            return {"name": path, "size": 0, "type": "directory"}
        raise FileNotFoundError(path)

    def ls(self, path, detail=True, **kwargs):
        path = self._strip_protocol(path)
        out = [self.info(f) for f in FILES if f.startswith(path + "/")]
        return out if detail else [o["name"] for o in out]


def register():
    fsspec.register_implementation("vffault", FaultFS, clobber=True)
