"""C12: corner and interior views of a quantity."""
import random

import numpy as np

from ..core import Violation, check
from ..fields import DTYPES, LAYOUTS, Memory, is_x, is_y, same_bits
from .c11_quantity_view import NAMES, address, pick

ID = "C12"
LEVEL = "exploration"
RULE = (
    "A case is a series of reads and writes through view.northwest/northeast/southwest/"
    "southeast/interior (indexing and sel) of one quantity with random dimension names and "
    "order, origin, extent, padding, dtype and memory layout. Compared with the data array by "
    "index arithmetic, bit for bit and by memory; after writes the whole block is compared. "
    "Non-trivial: at least one index was relative to the end of a dimension.")
COUNTS = {"quick": 12000, "thorough": 300000}
REQUIRED = {"reads": 40000, "writes": 15000, "end_relative": 50000, "rejected": 10000,
            "sel": 15000, "zero_dim": 300, "vertical": 30000, "negative_steps": 5000, "views_of_memory": 18000}
ASSUMPTIONS = ["indices lie within the underlying array", "interior takes slices only"]
VIEWS = {"northwest": (1, 0), "northeast": (1, 1), "southwest": (0, 0), "southeast": (0, 1)}


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), nd=rng.choice([0] + [1, 2, 2, 3, 3, 4] * 3 + [5, 6]),
                dtype=rng.choice(DTYPES), layout=rng.choice(LAYOUTS))


def directed(tier):
    return [dict(seed=i, nd=nd, dtype="f8", layout="C") for i in range(6) for nd in range(1, 5)]


def zero_dim(q, mem, p, mon, rng):
    for name in list(VIEWS) + ["interior"]:
        view = getattr(q.view, name)
        index = rng.choice([(), slice(None), Ellipsis])
        check(same_bits(np.asarray(view[index]), mem.view),
              f"{name} of a quantity without dimensions has another value", "wrong-elements")
        before = mem.base.copy()
        for bad in ((0,), (slice(None), 0), slice(0, 1), slice(1), slice(-1, None)):
            for f in (lambda: view[bad], lambda: view.__setitem__(bad, 0)):
                try:
                    f()
                except IndexError:
                    mon.count("rejected")
                else:
                    raise Violation(f"{name}[{bad}] accepted without dimensions",
                                    "accepts-invalid")
        check(same_bits(mem.base, before), "a rejected write changed data", "wrong-write")
        expect = mem.base.copy()
        value = Memory((), p["dtype"], "C", rng.randrange(10**6)).view
        mem.view_of(expect)[...] = value
        view[index] = value
        check(same_bits(mem.base, expect), f"writing {name}[{index}] without dimensions",
              "wrong-write")
        mon.count("zero_dim")


def run(p, mon):
    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    nd = p["nd"]
    dims = []
    if rng.random() < 0.8 and nd >= 2:
        dims = [rng.choice(["x", "x_interface"]), rng.choice(["y", "y_interface"])]
    dims += rng.sample([d for d in NAMES if d not in dims], nd - len(dims))
    rng.shuffle(dims)
    wide = rng.random() < 0.06 and nd < 4
    extent = [rng.randint(rng.random() >= 0.05, rng.choice([4, 20, 130]) if wide else 4)
              for _ in dims]
    origin = [rng.choice([0, 1, 2, 3]) for _ in dims]
    shape = [max(1, o + e + rng.choice([0, 1, 2, 3])) for o, e in zip(origin, extent)]
    mem = Memory(shape, p["dtype"], p["layout"], p["seed"] % 9973)
    data = mem.view
    q = util.Quantity(data, dims=dims, units="m", origin=origin, extent=extent)
    relative = 0
    if nd == 0:
        zero_dim(q, mem, p, mon, rng)
        return p
    for step in range(8):
        name = rng.choice(list(VIEWS) * 2 + ["interior"] * 3)
        view = getattr(q.view, name)
        entries, chosen = [], []
        used = nd if rng.random() < 0.7 else rng.randint(1, nd)
        for i, d in enumerate(dims):
            o, e, s = origin[i], extent[i], shape[i]
            if i >= used:
                chosen.append(list(range(o, o + e)))
                continue
            if name == "interior":
                ref_a, ref_b = o, o + e
            else:
                north, east = VIEWS[name]
                end = north if is_y(d) else east if is_x(d) else 0
                ref_a = ref_b = o + e if end else o
                if not (is_x(d) or is_y(d)):
                    mon.count("vertical")
            if ref_b != o:
                relative += 1
                mon.count("end_relative")
            if name != "interior" and rng.random() < 0.3:
                c = rng.randrange(s)
                entries.append(c - ref_a)
                chosen.append(c)
                continue
            a = None if rng.random() < 0.25 else rng.randint(0, s)
            b = None if rng.random() < 0.25 else rng.randint(0, s)
            if a is not None and b is not None and a >= b and rng.random() < 0.9:
                a, b = b, a + (a == b and a < s)
                if a == b and a:
                    a -= 1
            step_ = rng.choice([None, None, None, 1, 2])
            first, last = o if a is None else a, o + e if b is None else b
            if rng.random() < 0.15:  # from last to first
                step_ = rng.choice([-1, -1, -2, -3])
                ends = [rng.randrange(s), rng.randrange(s)]
                a = None if a is None or name == "interior" else max(ends)
                b = None if b is None or name == "interior" else min(ends)
                first, last = o + e - 1 if a is None else a, o - 1 if b is None else b
                mon.count("negative_steps")
            entries.append(slice(None if a is None else a - ref_a,
                                 None if b is None else b - ref_b, step_))
            chosen.append(list(range(first, last, step_ or 1)))
        what = f"{name} of {dims} shape {shape} origin {origin} extent {extent}: {entries}"
        want = pick(data, chosen)
        if rng.random() < 0.4 and want.size:
            expect = mem.base.copy()
            value = Memory(np.shape(want), p["dtype"], "C", rng.randrange(10**6)).view
            grid = np.ix_(*[[c] if np.isscalar(c) else c for c in chosen])
            mem.view_of(expect)[grid] = np.reshape(
                value, [len(np.atleast_1d(c)) for c in chosen])
            view[tuple(entries)] = value
            mon.count("writes")
            check(same_bits(mem.base, expect), f"writing {what}: wrong elements changed",
                  "wrong-write")
            continue
        if rng.random() < 0.3:
            items = list(zip(dims, entries))
            rng.shuffle(items)
            got = view.sel(**dict(items))
            mon.count("sel")
        elif used == 1 and rng.random() < 0.5:
            got = view[entries[0]]
        else:
            got = view[tuple(entries)]
        mon.count("reads")
        check(np.shape(got) == np.shape(want),
              lambda: f"{what}: shape {np.shape(got)}, expected {np.shape(want)}",
              "wrong-shape")
        check(same_bits(np.asarray(got), np.asarray(want)),
              lambda: f"{what}: {got!r}, expected {want!r}", "wrong-elements")
        if isinstance(got, np.ndarray) and got.size:
            first = data
            for axis in range(nd):
                c = chosen[axis]
                c = c if np.isscalar(c) else c[0]
                first = first[(slice(None),) * axis + (slice(c, c + 1),)]
            check(address(got) == address(first), f"{what}: a copy, not a view", "not-a-view")
            mon.count("views_of_memory")
    before = mem.base.copy()
    for name in list(VIEWS) + ["interior"]:
        try:
            getattr(q.view, name)[(slice(0, 0),) * (nd + 1)] = 0
        except IndexError:
            mon.count("rejected")
        else:
            raise Violation(f"{nd + 1} indices accepted on {nd} dimensions", "accepts-invalid")
    check(same_bits(mem.base, before), "a rejected write changed data", "wrong-write")
    return p if relative else None
