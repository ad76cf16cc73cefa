"""C29: a quantity's gt4py storage and its data are one memory on the requested backend."""
import random

import numpy as np

from .. import standin
from ..core import Violation, check
from ..fields import LAYOUTS, Memory, first_difference, host, same_bits

ID = "C29"
LEVEL = "exploration"
RULE = (
    "A case makes one quantity on cupy or a gt4py backend (stand-ins) from host or device "
    "data, a storage or a DataArray, then writes through data, view and storage in turn, "
    "reads through all three, transposes it, and allocates quantities for that backend; the "
    "oracle is a numpy copy. Non-trivial: has a storage and was written.")
COUNTS = {"quick": 6000, "thorough": 120000}
REQUIRED = {"storages_made": 1000, "storages_given": 400, "no_storage": 300, "writes": 4000,
            "transposes": 1000, "allocations": 2000, "rejected": 400, "data_arrays": 200,
            "views_of_memory": 1000}
ASSUMPTIONS = [
    "cupy and gt4py.storage are stand-ins over host memory; the repository's own tests for "
    "these backends pass on them"]

NAMES = ["x", "x_interface", "y", "y_interface", "z", "z_interface", "tracer"]
DTYPES = ["f8", "f4", "i4", "i8", "b1"]


def setup():
    standin.install()


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), how=rng.choice(
        ["backend", "backend", "storage", "plain", "data_array"]),
        kind=rng.choice(standin.KINDS), nd=rng.choice([1, 2, 2, 3, 3, 4]))


def directed(tier):
    return [dict(seed=s, how=how, kind=kind, nd=nd) for s, nd in enumerate((1, 2, 3, 4))
            for how in ("backend", "storage", "plain", "data_array")
            for kind in standin.KINDS]


def device(kind):
    return kind in ("cupy", "gtcuda")


def raises(errors, f, what, mon):
    try:
        f()
    except errors:
        mon.count("rejected")
    else:
        raise Violation(f"{what} was accepted", "accepts-invalid")


def memory(a):
    a = host(a).__array_interface__
    return a["data"][0], a["shape"], a["strides"]


def same_memory(a, b):
    a, b = host(a).view(np.ndarray), host(b).view(np.ndarray)
    return a.shape == b.shape and a.dtype == b.dtype and a.strides == b.strides and (
        a.__array_interface__["data"] == b.__array_interface__["data"])


def examine(q, kind, how, want, dims, units, origin, extent, what):
    """everything that can be seen of a quantity on this backend"""
    import cupy
    import gt4py

    store = gt4py.storage.storage
    check(not isinstance(q.data, store.Storage), f"{what}: data is a storage", "data-kind")
    on_device = device(kind)
    check(isinstance(q.data, cupy.ndarray if on_device else np.ndarray),
          f"{what}: data is {type(q.data).__name__}", "data-kind")
    check(q.np is (cupy if on_device else np) and q.metadata.np is q.np,
          f"{what}: np is {q.np.__name__} for data of type {type(q.data).__name__}",
          "wrong-module")
    check(q.metadata.data_type is type(q.data) and q.metadata.dtype == q.data.dtype,
          f"{what}: metadata {q.metadata}", "metadata")
    check(tuple(q.dims) == tuple(dims) and q.units == units
          and tuple(q.origin) == tuple(origin) and tuple(q.extent) == tuple(extent),
          f"{what}: dims {q.dims} units {q.units!r} origin {q.origin} extent {q.extent}",
          "metadata")
    got = host(q.data)
    check(same_bits(got, want), lambda: f"{what}: " + (
        first_difference(got, want) if got.shape == want.shape else
        f"shape {got.shape}, expected {want.shape}"), "wrong-data")
    inner = tuple(slice(o, o + e) for o, e in zip(origin, extent))
    view = q.view[:]
    check(type(view) is type(q.data) and same_memory(view, got[inner]),
          f"{what}: view[:] is not a view of the compute domain of data", "not-a-view")
    if how == "plain":
        check(q.gt4py_backend is None, f"{what}: backend {q.gt4py_backend!r}", "backend")
        try:
            q.storage
        except TypeError:
            pass
        else:
            raise Violation(f"{what}: has a storage without a backend", "accepts-invalid")
        return
    check(q.gt4py_backend == kind and q.metadata.gt4py_backend == kind,
          f"{what}: backend is {q.gt4py_backend!r}, expected {kind!r}", "backend")
    s = q.storage
    check(isinstance(s, store.GPUStorage if on_device else store.CPUStorage)
          and s.backend == kind, f"{what}: storage is {type(s).__name__} on "
          f"{getattr(s, 'backend', None)!r}", "storage-kind")
    check(same_memory(s, q.data), f"{what}: storage and data are not the same memory",
          "storage-apart")
    check(q.storage is s, f"{what}: storage is another object each time", "storage-apart")


def run(p, mon):
    import cupy
    import fv3gfs.util as util
    import xarray as xr

    rng = random.Random(p["seed"])
    kind, how = p["kind"], p["how"]
    if kind == "cupy" and how != "plain":
        kind = "gtcuda"
    dims = rng.sample(NAMES, p["nd"])
    extent = [rng.randint(1, 4) for _ in dims]
    origin = [rng.choice([0, 0, 1, 3]) for _ in dims]
    shape = [o + e + rng.choice([0, 0, 1, 2]) for o, e in zip(origin, extent)]
    mem = Memory(shape, rng.choice(DTYPES), rng.choice(LAYOUTS), p["seed"] % 9973)
    want = mem.view.copy()
    units = rng.choice(["m", "K", ""])
    kw = dict(origin=rng.choice([list, tuple])(origin), extent=extent)
    what = f"{how} on {kind}, {dims} shape {shape} origin {origin} extent {extent}"
    given = None
    if how == "plain":
        data = cupy.ndarray(_h=mem.view) if device(kind) else mem.view
        q = util.Quantity(data, dims, units, **kw)
        check(same_memory(q.data, mem.view), f"{what}: data was copied", "storage-apart")
        mon.count("no_storage")
    elif how == "storage":
        place, _ = standin.placement(kind)
        given = place(mem.view, origin)
        raises(TypeError, lambda: util.Quantity(
            given, dims, units, gt4py_backend=rng.choice([kind, "numpy", "gtx86"]), **kw),
            f"{what}: a storage together with gt4py_backend", mon)
        q = util.Quantity(given, dims, units, **kw)
        check(q.storage is given, f"{what}: storage is not the given one", "storage-apart")
        check(same_memory(q.data, mem.view), f"{what}: data was copied", "storage-apart")
        mon.count("storages_given")
    else:
        if how == "data_array":
            da = xr.DataArray(mem.view, dims=dims, attrs={"units": units})
            q = util.Quantity.from_data_array(da, gt4py_backend=kind, **kw)
            mon.count("data_arrays")
        else:
            on_device = device(kind) and rng.random() < 0.5
            data = cupy.ndarray(_h=mem.view) if on_device else mem.view
            q = util.Quantity(data, dims, units, gt4py_backend=kind, **kw)
        check(tuple(q.storage.default_origin) == tuple(origin),
              f"{what}: default_origin of the storage is {q.storage.default_origin}",
              "default-origin")
        mon.count("storages_made")

    def look(q, want, dims, origin, extent, what):
        examine(q, kind, how, want, dims, units, origin, extent, what)

    look(q, want, dims, origin, extent, what)
    hits = 0
    for _ in range(rng.randint(1, 4)):
        # write through one of data, view and storage, look through all of them
        route = rng.choice(["data", "view"] + (["storage"] if how != "plain" else []))
        value = Memory(want.shape, want.dtype, "C", rng.randrange(10**6)).view
        inner = tuple(slice(o, o + e) for o, e in zip(origin, extent))
        if route == "view":
            v = value[inner]
            want[inner] = v
            q.view[:] = cupy.asarray(v) if device(kind) else v
        elif route == "data":
            want[...] = value
            q.data[:] = cupy.asarray(value) if device(kind) else value
        else:
            want[...] = value
            q.storage[...] = value
        hits += 1
        mon.count("writes")
        look(q, want, dims, origin, extent, f"{what}, after a write through {route}")
    # part of the view
    k = rng.randrange(len(dims))
    i = rng.randrange(extent[k])
    index = (slice(None),) * k + (i,)
    got = q.view[index]
    ref = want[tuple(slice(o, o + e) for o, e in zip(origin, extent))][index]
    check(same_bits(host(got), np.asarray(ref)), f"{what}: view[{index}] is wrong",
          "wrong-data")
    if host(got).size and host(got).ndim:
        check(np.shares_memory(host(got), host(q.data)), f"{what}: view[{index}] is a copy",
              "not-a-view")
        mon.count("views_of_memory")
    # other orders of dimensions
    order = list(range(len(dims)))
    rng.shuffle(order)
    before = want.copy()
    t = q.transpose([dims[j] for j in order])
    tw = f"{what}, transposed to {[dims[j] for j in order]}"

    def turned(a):
        return [a[j] for j in order]

    want_t = np.transpose(want, order)
    look(t, want_t, turned(dims), turned(origin), turned(extent), tw)
    look(q, before, dims, origin, extent, what + ", after transpose")
    value = Memory(want_t.shape, want.dtype, "C", rng.randrange(10**6)).view
    t.data[:] = cupy.asarray(value) if device(kind) else value
    look(t, np.array(value), turned(dims), turned(origin), turned(extent),
         tw + ", after a write")
    if how != "plain":
        check(tuple(t.storage.default_origin) == tuple(turned(origin)),
              f"{tw}: default_origin {t.storage.default_origin}", "default-origin")
    mon.count("transposes")
    # allocation
    backend = kind if kind != "cupy" else "gtcuda"
    n, halo = rng.randint(1, 4), rng.randint(0, 3)
    sizer = util.SubtileGridSizer.from_tile_params(
        nx_tile=2 * n, ny_tile=n, nz=rng.randint(1, 3), n_halo=halo,
        extra_dim_lengths={"tracer": 2}, layout=(1, 2))
    factory = util.QuantityFactory.from_backend(sizer, backend)
    made = []
    for _ in range(2):
        some = rng.sample(NAMES, rng.randint(1, 3))
        name = rng.choice(["zeros", "ones", "empty"])
        dtype = rng.choice([float, np.float32, int, bool])
        a = getattr(factory, name)(some, units, dtype=dtype)
        aw = f"QuantityFactory.from_backend({backend!r}).{name}({some}, dtype={dtype.__name__})"
        shape = tuple(sizer.get_shape(some))
        content = host(a.data)
        check(a.data.dtype == np.dtype(dtype) and a.data.shape == shape,
              f"{aw}: {a.data.dtype}{a.data.shape}", "allocation")
        if name != "empty":
            content = np.full(shape, name == "ones", dtype)
        examine(a, backend, "storage", content, some, units, sizer.get_origin(some),
                sizer.get_extent(some), aw)
        check(tuple(a.storage.default_origin) == tuple(sizer.get_origin(some)),
              f"{aw}: default_origin {a.storage.default_origin}, expected "
              f"{sizer.get_origin(some)}", "default-origin")
        for o in made:
            check(not np.shares_memory(host(o.data), host(a.data)),
                  f"{aw}: two quantities share memory", "shared-memory")
        made.append(a)
        mon.count("allocations")
    return p if hits and how != "plain" else None
