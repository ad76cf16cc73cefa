"""C13: quantities keep their data and metadata through construction, copies, transposition
and conversion."""
import copy
import pickle
import random

import numpy as np

from ..core import Violation, check
from ..fields import DTYPES, LAYOUTS, Memory, same_bits
from .c11_quantity_view import NAMES, address

ID = "C13"
LEVEL = "exploration"
RULE = (
    "A case makes one quantity of 0-5 dimensions (random names, dtype, memory layout, origin, "
    "extent), checks all its metadata, makes invalid ones, transposes it by names and by "
    "groups of names (back and forth, and with targets which do not fit), converts it to a "
    "DataArray and back, copies and pickles it, then writes through one and looks at the "
    "others. Non-trivial: at least two dimensions.")
COUNTS = {"quick": 9000, "thorough": 200000}
REQUIRED = {"quantities": 8000, "transposed": 15000, "rejected": 30000, "data_arrays": 8000,
            "copies": 16000, "lists": 300}
ASSUMPTIONS = ["dimension names are distinct"]
GROUPS = {"x": ("x", "x_interface"), "x_interface": ("x", "x_interface"),
          "y": ("y", "y_interface"), "y_interface": ("y", "y_interface"),
          "z": ("z", "z_interface"), "z_interface": ("z", "z_interface")}


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), nd=rng.choice([0, 1, 2, 2, 3, 3, 4, 5]),
                dtype=rng.choice(DTYPES), layout=rng.choice(LAYOUTS))


def directed(tier):
    return ([dict(seed=i, nd=nd, dtype="f8", layout="C") for i in range(4) for nd in range(5)]
            + [dict(seed=i, nd=nd, dtype=d, layout=lay, big=big)
               for i, (nd, d, lay, big) in enumerate(
                   [(1, "f8", "C", 70000), (2, "f8", "C", 80), (2, "f4", "F", 300),
                    (3, "f8", "C", 20), (3, "f4", "strided", 60), (4, "i4", "C", 12)])])


def rejected(mon, errors, what, f):
    try:
        f()
    except errors:
        mon.count("rejected")
        return
    raise Violation(f"{what} was accepted", "accepts-invalid")


def consistent(q, dims, units, origin, extent, data, what):
    check(q.dims == tuple(dims) and isinstance(q.dims, tuple), f"{what}: dims {q.dims}",
          "metadata")
    check(q.units == units and q.attrs == {"units": units}, f"{what}: units {q.units!r} "
          f"attrs {q.attrs}", "metadata")
    check(tuple(q.origin) == tuple(origin) and tuple(q.extent) == tuple(extent)
          and all(type(i) is int for i in q.origin + q.extent),
          f"{what}: origin {q.origin} extent {q.extent}, expected {origin} {extent}",
          "metadata")
    m = q.metadata
    check((m.dims, m.units, tuple(m.origin), tuple(m.extent)) ==
          (tuple(dims), units, tuple(origin), tuple(extent)) and m.dtype == data.dtype
          and m.data_type is np.ndarray and m.np is np and q.np is np
          and m.dim_lengths == dict(zip(dims, extent)) and m.gt4py_backend is None,
          f"{what}: metadata {m}", "metadata")
    check(same_bits(np.asarray(q.data), data), f"{what}: data changed", "data")
    inner = data[tuple(slice(o, o + e) for o, e in zip(origin, extent))] if dims else data
    check(same_bits(np.asarray(q.view[:]), inner), f"{what}: view[:] is not the compute "
          "domain of data", "view")
    check(tuple(q.view.origin) == tuple(origin) and tuple(q.view.extent) == tuple(extent),
          f"{what}: view origin {q.view.origin} extent {q.view.extent}", "view")
    if q.view[:].size and len(dims):
        check(np.shares_memory(q.view[:], q.data), f"{what}: view is detached from data",
              "view")
        got = q.view.interior[tuple(slice(0, 0) for d in dims)]
        check(same_bits(np.asarray(got), inner), f"{what}: interior view is not the compute "
              "domain", "view")


def numbers(util, mon, rng, dims):
    """plain numbers and nested lists become arrays"""
    one = rng.choice([3, 2.5, -7])
    nested = rng.choice([one, [one], [[1, 2, 3], [4, 5, one]], [[[one]], [[0]]]])
    want = np.asarray(nested)
    names = (list(dims) + ["a1", "a2", "a3"])[:want.ndim]
    q = util.Quantity(nested, names, "m")
    check(isinstance(q.data, np.ndarray), f"data of {nested!r} is {type(q.data)}", "data")
    consistent(q, names, "m", [0] * want.ndim, want.shape, want, f"quantity of {nested!r}")
    check(q.data.dtype == want.dtype, f"{nested!r} has dtype {q.data.dtype}", "data")
    mon.count("plain_numbers")


def run(p, mon):
    import fv3gfs.util as util
    import xarray as xr

    rng = random.Random(p["seed"])
    nd = p["nd"]
    dims = rng.sample(NAMES, nd)
    big = p.get("big")
    shape = [rng.randint(big - 5, big + 5) if big else rng.randint(6, 20) if rng.random() < 0.1
             else rng.randint(1, 5) for _ in dims]
    origin = [rng.randint(0, s - 1) for s in shape]
    extent = [rng.randint(1, s - o) for s, o in zip(shape, origin)]
    units = rng.choice(["m", "", "K", "kg m^-2", "days", "unknown", " Pa ", "1/s "])
    mem = Memory(shape, p["dtype"], p["layout"], p["seed"] % 9973)
    data = mem.view
    snapshot = data.copy()
    what = f"{p['dtype']} quantity {dims} shape {shape} origin {origin} extent {extent}"
    kw = {}
    u = rng.random()
    if u < 0.6:
        kw = dict(origin=rng.choice([list, tuple, np.array])(origin),
                  extent=rng.choice([list, tuple])([np.int64(e) for e in extent]))
    elif u < 0.8:
        kw = dict(origin=tuple(origin))
        extent = [s - o for s, o in zip(shape, origin)]
    else:
        origin, extent = [0] * nd, list(shape)
    given = rng.choice([list, tuple])(dims)
    q = util.Quantity(data, given, units, **kw)
    mon.count("quantities")
    check(address(q.data) == address(data) and q.data.strides == data.strides,
          f"{what}: data was copied", "data")
    if isinstance(given, list):
        given.append("another")
    consistent(q, dims, units, origin, extent, snapshot, what)
    attrs = q.attrs
    attrs["units"] = "changed"
    attrs["more"] = 1
    attrs = q.data_array.attrs
    attrs["other"] = 2
    attrs = q.metadata.dim_lengths
    attrs["another"] = 3
    consistent(q, dims, units, origin, extent, snapshot,
               f"{what} after its attrs were changed")
    check(dict(q.data_array.attrs) == {"units": units}, f"{what}: attrs is not a copy",
          "metadata")
    numbers(util, mon, rng, dims)
    # invalid ones
    rejected(mon, ValueError, "an additional dimension name",
             lambda: util.Quantity(data, dims + ["more"], units, origin=origin,
                                   extent=extent))
    rejected(mon, ValueError, "an additional origin",
             lambda: util.Quantity(data, dims, units, origin=list(origin) + [0],
                                   extent=extent))
    rejected(mon, ValueError, "an additional extent",
             lambda: util.Quantity(data, dims, units, origin=origin,
                                   extent=list(extent) + [1]))
    if nd:
        rejected(mon, ValueError, "too few dimension names",
                 lambda: util.Quantity(data, dims[1:], units, origin=origin, extent=extent))
        rejected(mon, ValueError, "too few origins",
                 lambda: util.Quantity(data, dims, units, origin=origin[1:], extent=extent))
        rejected(mon, ValueError, "too few extents",
                 lambda: util.Quantity(data, dims, units, origin=origin, extent=extent[1:]))
        rejected(mon, TypeError, "an origin which is not a number",
                 lambda: util.Quantity(data, dims, units, origin=["a"] + list(origin[1:]),
                                       extent=extent))
        rejected(mon, TypeError, "an extent which is not a number",
                 lambda: util.Quantity(data, dims, units, origin=origin,
                                       extent=list(extent[1:]) + ["b"]))
    rejected(mon, TypeError, "use of storage without a backend", lambda: q.storage)
    # transposition
    for _ in range(2):
        order = list(range(nd))
        rng.shuffle(order)
        target = []
        for i in order:
            d = dims[i]
            g = GROUPS.get(d, (d, "not_there"))
            clash = sum(x in dims for x in g) > 1
            target.append(d if clash or rng.random() < 0.5
                          else rng.choice([list, tuple, set, iter])(g))
        t = q.transpose(rng.choice([list, tuple])(target))
        want = [dims[i] for i in order]
        moved = snapshot.transpose(order) if nd else snapshot
        consistent(t, want, units, [origin[i] for i in order], [extent[i] for i in order],
                   np.ascontiguousarray(moved) if nd else moved,
                   f"{what} transposed to {target}")
        if t.data.size:
            check(np.shares_memory(t.data, data) and address(t.data) == address(data),
                  f"{what}: transposed to {target} it is detached from the data", "view")
            at = tuple(rng.randrange(n) for n in shape)
            old = snapshot[at].copy() if nd else snapshot.copy()
            new = (old == 0)
            t.data[tuple(at[i] for i in order)] = new
            expect = snapshot.copy()
            expect[at] = new
            check(same_bits(np.asarray(q.data), expect), f"{what}: a write through its "
                  f"transpose to {target} did not arrive at the same point", "view")
            data[at] = old
        b = t.transpose(dims)
        consistent(b, dims, units, origin, extent, snapshot, f"{what} transposed and back")
        mon.count("transposed", 2)
    consistent(q, dims, units, origin, extent, snapshot, f"{what} after transposing")
    rejected(mon, ValueError, "transposing to a dimension which does not exist",
             lambda: q.transpose(dims[:-1] + ["not_there"]))
    rejected(mon, ValueError, "transposing to a group without a match",
             lambda: q.transpose(dims[:-1] + [("not_there", "neither")]))
    if nd >= 2:
        rejected(mon, ValueError, "transposing to a group with two matches",
                 lambda: q.transpose([tuple(dims[:2])] + dims[1:]))
        rejected(mon, ValueError, "transposing to one dimension twice",
                 lambda: q.transpose([dims[0]] + dims[:-1]))
        rejected(mon, ValueError, "transposing to some of the dimensions",
                 lambda: q.transpose(dims[1:]))
    # conversion
    inner = snapshot[tuple(slice(o, o + e) for o, e in zip(origin, extent))] if nd else snapshot
    da = q.data_array
    check(isinstance(da, xr.DataArray) and da.dims == tuple(dims)
          and dict(da.attrs) == {"units": units} and same_bits(da.values, inner),
          f"{what}: data_array {da}", "data-array")
    v = q.values
    check(same_bits(np.asarray(v), inner) and not v.flags.writeable
          and (not v.size or np.shares_memory(v, data)),
          f"{what}: values is not a read-only view of the compute domain", "view")
    check(q.data.flags.writeable and np.asarray(q.view[:]).flags.writeable,
          f"{what}: not writable after values was used", "view")
    state = {"a": q, "time": 5} if rng.random() < 0.5 and "time" not in dims else {"a": q}
    ds = util.to_dataset(state)
    check(set(ds.variables) == set(state) and ds["a"].dims == tuple(dims)
          and dict(ds["a"].attrs) == {"units": units} and same_bits(ds["a"].values, inner)
          and list(state) == ["a", "time"][:len(state)]
          and ("time" not in state or ds["time"].item() == 5),
          f"{what}: to_dataset gave {ds}", "data-array")
    back = util.Quantity.from_data_array(da)
    consistent(back, dims, units, [0] * nd, inner.shape, inner, f"{what} to DataArray and back")
    whole = xr.DataArray(snapshot.copy(), dims=dims, attrs={"units": units, "more": 1})
    f = util.Quantity.from_data_array(whole, origin=origin, extent=extent)
    consistent(f, dims, units, origin, extent, snapshot, f"{what} from DataArray")
    mon.count("data_arrays")
    rejected(mon, ValueError, "a DataArray without units",
             lambda: util.Quantity.from_data_array(xr.DataArray(snapshot, dims=dims)))
    # copies
    consistent(copy.copy(q), dims, units, origin, extent, snapshot, f"{what} copied (shallow)")
    copies = [copy.deepcopy(q), pickle.loads(pickle.dumps(q))]
    for c in copies:
        consistent(c, dims, units, origin, extent, snapshot, f"{what} copied")
        mon.count("copies")
        check(not np.shares_memory(c.data, data), f"{what}: a copy shares memory", "copy")
        if nd:
            c.view[:] = np.zeros((), p["dtype"])
        else:
            c.data[...] = np.zeros((), p["dtype"])
        z = snapshot.copy()
        if nd:
            z[tuple(slice(o, o + e) for o, e in zip(origin, extent))] = 0
        else:
            z[...] = 0
        consistent(c, dims, units, origin, extent, z, f"{what} copied and changed")
    consistent(q, dims, units, origin, extent, snapshot, f"{what} after its copies changed")
    expect, view = mem.expected()
    check(same_bits(mem.base, expect) and same_bits(data, snapshot), "data changed", "data")
    # numbers and lists
    if nd <= 2 and rng.random() < 0.3:
        plain = snapshot.astype("f8") if p["dtype"] not in ("c16",) else snapshot.real
        plain = np.nan_to_num(plain).tolist()
        lq = util.Quantity(plain, dims, units)
        check(np.array_equal(np.asarray(lq.data), np.asarray(plain))
              and isinstance(lq.data, np.ndarray) and lq.dims == tuple(dims),
              "a quantity made of numbers or lists has other data", "data")
        mon.count("lists")
    return p if nd >= 2 else None
