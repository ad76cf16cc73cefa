"""Stand-ins for cupy and gt4py.storage which watch what the package does with device arrays.

cupy.ndarray here keeps its memory in a numpy array that nothing else may touch: as with the
real cupy there is no implicit conversion to numpy (TypeError), numpy arrays cannot be
assigned or combined with device arrays, and data cross between host and device only through
asarray/asnumpy/get, which are counted. gt4py.storage has CPU and GPU storages with the
interface of the pinned gt4py version, as far as the package uses it. MPI calls accept
contiguous device arrays, as a CUDA-aware MPI does (the package's own tests require that
contiguous arrays are handed to MPI as they are).
"""
import sys
import types

import numpy as np

COUNTS = {"to_host": 0, "to_device": 0, "device_ops": 0, "storages": 0}


class Flags:
    def __init__(self, flags):
        self.c_contiguous = flags["C_CONTIGUOUS"]
        self.f_contiguous = flags["F_CONTIGUOUS"]
        self.owndata = flags["OWNDATA"]

    def __getitem__(self, name):
        return {"C_CONTIGUOUS": self.c_contiguous, "F_CONTIGUOUS": self.f_contiguous,
                "OWNDATA": self.owndata}[name]


class MemoryPointer:
    def __init__(self, mem):
        self.mem = mem


def scalar(x):
    return isinstance(x, (int, float, complex, bool, np.generic)) or (
        isinstance(x, np.ndarray) and x.ndim == 0)


def index_of(i):
    if isinstance(i, tuple):
        return tuple(index_of(k) for k in i)
    return i._h if isinstance(i, ndarray) else i


class ndarray:
    """a device array"""

    __slots__ = ("_h", "base", "__weakref__")

    def __init__(self, shape=None, dtype=float, _h=None, base=None):
        self._h = np.empty(shape, dtype) if _h is None else _h
        self.base = base

    # what numpy would use to look inside
    def __array__(self, *args, **kw):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. "
                        "Please use `.get()` to construct a NumPy array explicitly.")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        for x in inputs + tuple(kw.get("out") or ()):
            if not isinstance(x, ndarray) and not scalar(x):
                raise TypeError(f"Unsupported type {type(x)}")
        COUNTS["device_ops"] += 1
        out = kw.pop("out", None)
        if out:
            kw["out"] = tuple(o._h for o in out)
        r = getattr(ufunc, method)(*[getattr(x, "_h", x) if isinstance(x, ndarray) else x
                                     for x in inputs], **kw)
        if out:
            return out[0]
        return wrap(r)

    def __array_function__(self, func, types_, args, kw):
        return call(func, args, kw)

    shape = property(lambda s: s._h.shape)
    dtype = property(lambda s: s._h.dtype)
    ndim = property(lambda s: s._h.ndim)
    size = property(lambda s: s._h.size)
    nbytes = property(lambda s: s._h.nbytes)
    strides = property(lambda s: s._h.strides)
    itemsize = property(lambda s: s._h.itemsize)
    flags = property(lambda s: Flags(s._h.flags))
    data = property(lambda s: MemoryPointer(s._h))
    T = property(lambda s: s.transpose())

    def __len__(self):
        return len(self._h)

    def __getitem__(self, i):
        return wrap(self._h[index_of(i)], self)

    def __setitem__(self, i, value):
        if isinstance(value, ndarray):
            value = value._h
        elif not scalar(value):
            raise ValueError("non-scalar numpy.ndarray cannot be used for fill")
        COUNTS["device_ops"] += 1
        self._h[index_of(i)] = value

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def transpose(self, *axes):
        return wrap(self._h.transpose(*axes), self)

    def reshape(self, *shape, **kw):
        return wrap(self._h.reshape(*shape, **kw), self)

    def ravel(self, order="C"):
        return wrap(self._h.ravel(order))

    def copy(self, order="C"):
        return wrap(self._h.copy(order))

    def astype(self, dtype, order="K", casting=None, subok=None, copy=True):
        return wrap(self._h.astype(dtype, order=order, copy=copy))

    def view(self, *args):
        return wrap(self._h.view(*args), self)

    def fill(self, v):
        self._h.fill(v)

    def get(self, *args, **kw):
        COUNTS["to_host"] += 1
        return self._h.copy()

    def tobytes(self, order="C"):
        COUNTS["to_host"] += 1
        return self._h.tobytes(order)

    def item(self, *args):
        return self._h.item(*args)

    def __bool__(self):
        return bool(self._h)

    def __float__(self):
        return float(self._h)

    def __repr__(self):
        return f"device{self._h!r}"

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        return _rebuild, (self._h.copy(),)


def _rebuild(h):
    return ndarray(_h=h)


def _operators():
    def make(name, inplace):
        def op(self, other):
            if not isinstance(other, ndarray) and not scalar(other):
                if not hasattr(other, "__array__") and not hasattr(other, "dtype"):
                    return NotImplemented
                raise TypeError(f"Unsupported type {type(other)}")
            COUNTS["device_ops"] += 1
            r = getattr(self._h, name)(other._h if isinstance(other, ndarray) else other)
            return self if inplace else wrap(r)
        return op

    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
        for name in (f"__{n}__", f"__r{n}__"):
            setattr(ndarray, name, make(name, False))
        setattr(ndarray, f"__i{n}__", make(f"__i{n}__", True))
    for n in ("eq", "ne", "lt", "le", "gt", "ge"):
        setattr(ndarray, f"__{n}__", make(f"__{n}__", False))
    for n in ("all", "any", "sum", "mean", "min", "max"):
        def reduce(self, *args, _n=n, **kw):
            return wrap(getattr(self._h, _n)(*args, **kw))
        setattr(ndarray, n, reduce)
    for n in ("neg", "pos", "abs", "invert"):
        def unary(self, _n=n):
            return wrap(getattr(self._h, f"__{_n}__")())
        setattr(ndarray, f"__{n}__", unary)
    ndarray.__hash__ = None


_operators()


def wrap(r, base=None):
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, (np.ndarray, np.generic)):  # cupy has zero-dimension arrays, no scalars
        return ndarray(_h=np.asarray(r), base=base)
    return r


def call(func, args, kw):
    def unwrap(x):
        if isinstance(x, ndarray):
            return x._h
        if isinstance(x, (list, tuple)):
            return type(x)(unwrap(y) for y in x)
        if isinstance(x, np.ndarray) and x.ndim:
            raise TypeError(f"Unsupported type {type(x)}")
        return x

    COUNTS["device_ops"] += 1
    return wrap(func(*[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kw.items()}))


# ------------------------------------------------------------------------------ cupy
def asnumpy(a, *args, **kw):
    """as the real one: device arrays are copied, anything else goes through numpy"""
    if isinstance(a, ndarray):
        return a.get()
    return np.asarray(a)


def asarray(a, dtype=None, order=None):
    if isinstance(a, ndarray):
        return a if dtype is None or a.dtype == dtype else a.astype(dtype)
    gpu = getattr(a, "gpu_view", None)
    if gpu is not None:
        return gpu
    COUNTS["to_device"] += 1
    return ndarray(_h=np.array(a, dtype=dtype))


def make_cupy():
    m = types.ModuleType("cupy")
    m.ndarray, m.asnumpy, m.asarray, m.array = ndarray, asnumpy, asarray, asarray
    m.ascontiguousarray = lambda a, dtype=None: ndarray(
        _h=np.ascontiguousarray(asarray(a)._h, dtype=dtype))
    for n in ("empty", "zeros", "ones", "full", "arange", "linspace"):
        def creator(*args, _n=n, **kw):
            return ndarray(_h=getattr(np, _n)(*args, **kw))
        creator.__name__ = n
        setattr(m, n, creator)

    def poisoned(shape, dtype=float, order="C"):
        a = np.empty(shape, dtype, order)
        a.view(np.uint8).fill(0xFB) if a.ndim and a.size and a.flags.c_contiguous else None
        return ndarray(_h=a)

    poisoned.__name__ = "empty"
    m.empty = poisoned

    def missing(name):
        f = getattr(np, name)
        if isinstance(f, type) or not callable(f):
            return f

        def g(*args, **kw):
            if name == "transpose":  # the real one calls the argument's method
                return args[0].transpose(*args[1:], **kw)
            for a in args:
                if isinstance(a, np.ndarray) and a.ndim:
                    raise TypeError(f"Unsupported type {type(a)}")
            return call(f, args, kw)

        g.__name__ = name
        return g

    def host(f):
        return lambda *args, **kw: f(*[asnumpy(a) if isinstance(a, ndarray) else a
                                       for a in args], **kw)

    m.testing = types.SimpleNamespace(**{
        n: host(getattr(np.testing, n)) for n in dir(np.testing) if n.startswith("assert_")})
    m.random = types.SimpleNamespace(**{
        n: (lambda *args, _n=n, **kw: wrap(getattr(np.random, _n)(*args, **kw)))
        for n in ("rand", "randn", "random", "uniform", "randint")})
    m.__getattr__ = missing
    m.__version__ = "8.0.0"
    return m


# ----------------------------------------------------------------------------- gt4py
class Storage(np.ndarray):
    """common base; CPU storages hold their data as numpy arrays do"""

    def __new__(cls, backend, default_origin, shape, dtype):
        obj = np.zeros(shape, dtype).view(cls)
        obj._backend, obj._origin = backend, tuple(default_origin)
        COUNTS["storages"] += 1
        return obj

    def __array_finalize__(self, obj):
        self._backend = getattr(obj, "_backend", None)
        self._origin = getattr(obj, "_origin", None)

    backend = property(lambda s: s._backend)
    default_origin = property(lambda s: s._origin)


class CPUStorage(Storage):
    @property
    def data(self):
        return self.view(np.ndarray)


class GPUStorage(Storage):
    """managed memory: one copy, seen by the device"""

    @property
    def gpu_view(self):
        return ndarray(_h=self.view(np.ndarray), base=self)

    @property
    def data(self):
        return self.view(np.ndarray)

    def __setitem__(self, i, value):
        if isinstance(value, ndarray):
            value = value._h
        super().__setitem__(i, value)


BACKENDS = {"numpy": CPUStorage, "gtx86": CPUStorage, "gtmc": CPUStorage,
            "debug": CPUStorage, "gtcuda": GPUStorage}


def make_gt4py():
    def storage(fill):
        def f(backend, default_origin, shape, dtype, mask=None, *, managed_memory=False):
            if len(default_origin) != len(shape):
                raise ValueError("default_origin must have one entry per dimension")
            if any(n <= 0 for n in shape):
                raise ValueError("zero-length dimensions are not supported")
            s = BACKENDS[backend](backend, default_origin, shape, dtype)
            if fill is not None:
                s.view(np.ndarray)[...] = fill
            else:
                flat = s.view(np.ndarray).reshape(-1).view(np.uint8)
                flat[...] = 0xFB
            if BACKENDS[backend] is GPUStorage and not managed_memory:
                raise ValueError("stand-in: only managed memory is emulated")
            return s
        return f

    gt4py = types.ModuleType("gt4py")
    pkg = types.ModuleType("gt4py.storage")
    mod = types.ModuleType("gt4py.storage.storage")
    for name, fill in (("empty", None), ("zeros", 0), ("ones", 1)):
        f = storage(fill)
        f.__name__ = name
        setattr(mod, name, f)
        setattr(pkg, name, f)
    mod.Storage, mod.CPUStorage, mod.GPUStorage = Storage, CPUStorage, GPUStorage
    gt4py.storage, pkg.storage = pkg, mod
    pkg.__path__ = []
    gt4py.__path__ = []
    return {"gt4py": gt4py, "gt4py.storage": pkg, "gt4py.storage.storage": mod}


def install():
    """put the stand-ins where `import cupy` finds them and import the package afresh"""
    for name in [n for n in sys.modules if n == "fv3gfs" or n.startswith("fv3gfs.")]:
        del sys.modules[name]
    cupy = make_cupy()
    sys.modules["cupy"] = cupy
    sys.modules.update(make_gt4py())
    from . import core

    util = core.import_target()
    return util, cupy, sys.modules["gt4py"]


KINDS = ("cupy", "numpy", "gtx86", "gtcuda")  # cupy arrays and storages of these backends


def placement(kind):
    """(place, kept) for fields.PLACE and fields.KEPT"""
    from .core import check

    def place(a, origin):
        if kind == "cupy":
            return ndarray(_h=a)
        s = a.view(BACKENDS[kind])
        s._backend, s._origin = kind, tuple(origin) if origin is not None else (0,) * a.ndim
        COUNTS["storages"] += 1
        return s

    def kept(q, what):
        check((type(q.data) is ndarray) == (kind in ("cupy", "gtcuda")),
              f"{what}: data of {kind} quantities became {type(q.data).__name__}", "kind-lost")
        check(q.np is sys.modules["cupy" if type(q.data) is ndarray else "numpy"],
              f"{what}: np of a quantity on {kind} is {q.np.__name__}", "wrong-module")
        if kind == "cupy":
            check(q.gt4py_backend is None, f"{what}: backend {q.gt4py_backend!r} for cupy "
                  "arrays", "backend-wrong")
            return
        check(q.gt4py_backend == kind, f"{what}: backend {kind!r} became "
              f"{q.gt4py_backend!r}", "backend-lost")
        s = q.storage
        check(isinstance(s, BACKENDS[kind]) and s.backend == kind,
              f"{what}: storage is {type(s).__name__} of backend "
              f"{getattr(s, 'backend', None)!r}", "storage-kind")
        h, d = s.view(np.ndarray), getattr(q.data, "_h", q.data)
        check(h.shape == d.shape and h.dtype == d.dtype and (
            h.__array_interface__["data"] == d.__array_interface__["data"]
            and h.strides == d.strides),
            f"{what}: storage and data are not the same memory", "storage-apart")

    return place, kept
