"""C11: indexing of quantity.view, relative to the compute domain."""
import random

import numpy as np

from ..core import Violation, check
from ..fields import DTYPES, LAYOUTS, Memory, same_bits

ID = "C11"
LEVEL = "exploration"
RULE = (
    "A case is a series of reads and writes through view[...] and sel() of one quantity of "
    "0-4 dimensions (random names, origin, extent, padding, dtype and memory layout) with "
    "integers, slices with and without ends and steps, new axes and fewer indices than "
    "dimensions. Reads are compared with the data array by index arithmetic, bit for bit and "
    "by memory; after writes the whole memory block is compared. Non-trivial: at least one "
    "read outside of the compute domain or one write.")
COUNTS = {"quick": 12000, "thorough": 300000}
REQUIRED = {"reads": 40000, "writes": 15000, "halo_reads": 5000, "negative_steps": 2000,
            "rejected": 3000, "zero_dim": 300, "new_axes": 3000, "sel": 8000, "views_of_memory": 18000}
ASSUMPTIONS = ["indices lie within the underlying array", "one index per dimension at most"]

NAMES = ["x", "x_interface", "y", "y_interface", "z", "z_interface", "z_soil", "tracer",
         "time", "my_dim"]


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), nd=rng.choice([0, 1, 1, 2, 2, 3, 3, 4] * 3 + [5, 6]),
                dtype=rng.choice(DTYPES), layout=rng.choice(LAYOUTS))


def directed(tier):
    return [dict(seed=i, nd=nd, dtype="f8", layout="C") for i in range(6) for nd in range(5)]


def random_entry(rng, origin, extent, shape, mon):
    """-> (entry for view, indices into data as a list or int, outside)"""
    u = rng.random()
    lo, hi = -origin, shape - origin  # valid integer indices are lo..hi-1
    if u < 0.35:
        i = rng.randrange(lo, hi)
        e = np.int64(i) if rng.random() < 0.15 else i
        return e, origin + i, not 0 <= i < extent
    step = rng.choice([None, None, None, 1, 1, 2, 3, -1, -2])
    if step is None or step > 0:
        a = None if rng.random() < 0.35 else rng.randint(lo, hi)
        b = None if rng.random() < 0.35 else rng.randint(lo, hi)
        first = origin + (0 if a is None else a)
        last = origin + (extent if b is None else b)
        idx = list(range(first, last, step or 1))
    else:
        mon.count("negative_steps")
        a = None if rng.random() < 0.4 else rng.randint(lo, hi - 1)
        b = None if rng.random() < 0.4 else rng.randint(lo, hi - 1)
        first = origin + (extent - 1 if a is None else a)
        last = origin + (-1 if b is None else b)
        idx = list(range(first, last, step))
    return slice(a, b, step), idx, any(not origin <= i < origin + extent for i in idx)


def pick(data, chosen):
    """elements of data by explicit positions (copy)"""
    out = data
    for axis in reversed(range(len(chosen))):
        out = np.take(out, chosen[axis], axis=axis)
    return out


def address(a):
    return a.__array_interface__["data"][0]


def run(p, mon):
    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    nd = p["nd"]
    dims = rng.sample(NAMES, nd)
    wide = rng.random() < 0.06 and nd < 4
    extent = [rng.randint(rng.random() >= 0.05, rng.choice([4, 20, 130]) if wide else 4)
              for _ in dims]
    origin = [rng.choice([0, 0, 1, 2, 3]) for _ in dims]
    shape = [max(1, o + e + rng.choice([0, 0, 1, 2])) for o, e in zip(origin, extent)]
    mem = Memory(shape, p["dtype"], p["layout"], p["seed"] % 9973)
    data = mem.view
    q = util.Quantity(data, dims=dims, units="m", origin=origin, extent=extent)
    hits = 0
    for step in range(8):
        used = rng.randint(0, nd) if rng.random() < 0.4 else nd
        entries, chosen, out = [], [], False
        for i in range(nd):
            if i < used:
                e, c, o = random_entry(rng, origin[i], extent[i], shape[i], mon)
                entries.append(e)
                out |= o
            else:
                c = list(range(origin[i], origin[i] + extent[i]))
            chosen.append(c)
        what = f"{dims} shape {shape} origin {origin} extent {extent}, index {entries}"
        use_sel = rng.random() < 0.25 and nd > 0
        if nd == 0:
            mon.count("zero_dim")
            index = rng.choice([(), slice(None), Ellipsis])
        elif used == 1 and rng.random() < 0.6:
            index = entries[0]
        elif used == 0:
            index = slice(None)
        else:
            index = tuple(entries)
        new_axes = []
        if isinstance(index, tuple) and nd and not use_sel and rng.random() < 0.15:
            at = sorted(rng.randint(0, len(index)) for _ in range(rng.choice([1, 1, 2, 3])))
            for k in reversed(at):
                index = index[:k] + (None,) + index[k:]
            # positions of the new axes among the dimensions of the result
            new_axes = [sum(not np.isscalar(c) for c in chosen[:k]) for k in at]
            mon.count("new_axes", len(at))
        want = pick(data, chosen)
        for k in reversed(new_axes):
            want = np.expand_dims(want, k)
        if rng.random() < 0.45 and want.size:
            # write
            before = mem.base.copy()
            expect = mem.base.copy()
            grid = np.ix_(*[[c] if np.isscalar(c) else c for c in chosen])
            value = Memory(np.shape(want), p["dtype"], "C", rng.randrange(10**6)).view
            if rng.random() < 0.3:
                value = np.asarray(value).reshape(-1)[0]
            target = mem.view_of(expect)
            if nd:
                target[grid] = np.reshape(np.broadcast_to(value, np.shape(want)),
                                          [len(np.atleast_1d(c)) for c in chosen])
            else:
                target[...] = value
            q.view[index] = value
            mon.count("writes")
            hits += 1
            if not same_bits(mem.base, expect):
                changed = not same_bits(mem.base, before)
                raise Violation(f"writing view of {what}: "
                                + ("wrong elements changed" if changed else "no effect"),
                                "wrong-write")
            continue
        if use_sel:
            kw = {d: e for d, e in zip(dims, entries)}
            items = list(kw.items())
            rng.shuffle(items)
            got = q.sel(**dict(items))
            mon.count("sel")
            what = "sel of " + what
        else:
            got = q.view[index]
        mon.count("reads")
        mon.count("halo_reads", out)
        hits += out
        check(np.shape(got) == np.shape(want),
              lambda: f"view of {what}: shape {np.shape(got)}, expected {np.shape(want)}",
              "wrong-shape")
        check(same_bits(np.asarray(got), np.asarray(want)),
              lambda: f"view of {what}: {got!r}, expected {want!r}", "wrong-elements")
        if isinstance(got, np.ndarray) and got.size:
            first = data
            for axis in reversed(range(nd)):
                c = chosen[axis]
                c = c if np.isscalar(c) else c[0]
                first = first[(slice(None),) * axis + (slice(c, c + 1),)]
            check(address(got) == address(first),
                  f"view of {what}: a copy, not a view of the data", "not-a-view")
            mon.count("views_of_memory")
    # the whole compute domain
    for got in (q.view[:], q.values):
        want = data[tuple(slice(o, o + e) for o, e in zip(origin, extent))]
        check(same_bits(np.asarray(got), want), "view[:] is not the compute domain",
              "wrong-elements")
    check(not q.values.flags.writeable, "values can be written to", "values-writeable")
    check(nd == 0 or q.view[:].flags.writeable, "view cannot be written to after values",
          "view-readonly")
    check(same_bits(q.data, data) and address(q.data) == address(data), "data replaced",
          "data-replaced")
    # more indices than dimensions
    before = mem.base.copy()
    for bad in [(0,) * (nd + 1), (slice(None),) * (nd + 1)] + (
            [] if nd else [slice(0, 1), slice(1), slice(0, None)]):
        for f in (lambda: q.view[bad], lambda: q.view.__setitem__(bad, 0)):
            try:
                f()
            except IndexError:
                mon.count("rejected")
            else:
                raise Violation(f"index {bad} accepted on {nd} dimensions", "accepts-invalid")
    check(same_bits(mem.base, before), "a rejected write changed data", "wrong-write")
    return p if hits else None
