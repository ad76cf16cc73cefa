"""A zarr store shared by simulated ranks: scheduling points, op log, injected faults."""
import threading
from collections.abc import MutableMapping

_REGISTRY = {}
_LOCAL = threading.local()


class InjectedFault(OSError):
    pass


class InjectedValueFault(InjectedFault, ValueError):
    pass


class InjectedRuntimeFault(InjectedFault, RuntimeError):
    pass


class InjectedTypeFault(InjectedFault, TypeError):
    pass


FAULTS = (InjectedFault, InjectedValueFault, InjectedRuntimeFault, InjectedTypeFault)


def here(comm, rank):
    """declare which rank the current thread is"""
    _LOCAL.where = (comm, rank)


def _lookup(key):
    return _REGISTRY[key]


class SharedStore(MutableMapping):
    """a mapping like an object store: operations on one key are atomic and immediate"""

    def __init__(self, key, fail_at=None, fault=InjectedFault):
        self.key, self.data, self.log, self.ops = key, {}, [], 0
        self.fail_at, self.fault = fail_at, fault
        self.faults = 0
        self.changes = 0
        _REGISTRY[key] = self

    def __reduce__(self):  # what a broadcast of the zarr group does to it
        return _lookup, (self.key,)

    def forget(self):
        _REGISTRY.pop(self.key, None)

    def _op(self, name, key):
        where = getattr(_LOCAL, "where", None)
        rank = None
        if where is not None:
            comm, rank = where
            comm._step("store-" + name)
        self.ops += 1
        return rank

    def _change(self, rank, name, key, value):
        self.changes += 1
        if self.fail_at is not None and self.changes == self.fail_at:
            self.faults += 1
            raise self.fault(f"injected: no space left on device ({name} {key})")
        self.log.append((rank, name, key, value))

    def __getitem__(self, key):
        rank = self._op("get", key)
        v = self.data[key]
        self.log.append((rank, "get", key, None))
        return v

    def __setitem__(self, key, value):
        rank = self._op("set", key)
        value = bytes(value) if not isinstance(value, bytes) else value
        self._change(rank, "set", key, value)
        self.data[key] = value

    def __delitem__(self, key):
        rank = self._op("del", key)
        if key not in self.data:
            raise KeyError(key)
        self._change(rank, "del", key, None)
        del self.data[key]

    def __iter__(self):
        return iter(list(self.data))

    def __len__(self):
        return len(self.data)

    def __contains__(self, key):
        return key in self.data

    def mark(self, rank, event):
        self.log.append((rank, "event", event, None))


def replay(log, upto):
    """the store's content after the first `upto` entries of a log"""
    data = {}
    for rank, name, key, value in log[:upto]:
        if name == "set":
            data[key] = value
        elif name == "del":
            data.pop(key, None)
    return data
