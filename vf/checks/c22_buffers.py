"""C22: message buffers are exclusive, contiguous and carry the right data."""
import random
import warnings

import numpy as np

from .. import cube
from ..core import Violation, check
from ..fields import DTYPES, LAYOUTS, Memory, same_bits

ID = "C22"
LEVEL = "exploration"
RULE = (
    "A case is a random program which enters and leaves array_buffer, send_buffer and "
    "recv_buffer contexts in any order (up to 8 open at once, as overlapping updates do), "
    "for a few shapes, dtypes and allocators, with None, contiguous and non-contiguous "
    "arrays, some contexts left by an exception. Monitored: buffers that are open share no "
    "memory, shape/dtype/contiguity, content of send buffers, what recv buffers leave in the "
    "target array and its surroundings. Non-trivial: at least two buffers open at once.")
COUNTS = {"quick": 5000, "thorough": 100000}
REQUIRED = {"buffers": 50000, "overlapping": 30000, "reused": 5000, "send": 20000,
            "recv": 20000, "left_by_exception": 3000, "none": 3000, "allocators_told_apart": 8000, "packed": 8000,
            "unpacked": 8000}
ASSUMPTIONS = ["allocators return fresh arrays", "one thread"]


class Boom(Exception):
    pass


MADE = {}  # address -> the allocator of ours which made it last


def address(a):
    return a.__array_interface__["data"][0]


def allocator_a(shape, dtype=float):
    a = np.frombuffer(bytearray(b"\xfb" * (int(np.prod(shape)) * np.dtype(dtype).itemsize)),
                      dtype).reshape(shape)
    MADE[address(a)] = allocator_a
    return a


def allocator_b(shape, dtype=float):
    a = np.zeros(shape, dtype)
    MADE[address(a)] = allocator_b
    return a


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), ops=rng.randint(10, 50))


def directed(tier):
    return [dict(seed=s, ops=50) for s in range(5)]


def run(p, mon):
    import fv3gfs.util as util
    from fv3gfs.util import array_buffer, recv_buffer, send_buffer

    rng = random.Random(p["seed"])
    shapes = [tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 3))) for _ in range(3)]
    if rng.random() < 0.25:
        shapes[0] = tuple(rng.randint(1, 4) for _ in range(rng.randint(4, 6)))
    shapes.append(shapes[0][::-1] if rng.random() < 0.5
                  else tuple(rng.sample(shapes[0], len(shapes[0]))))
    dtypes = [np.dtype(d) for d in rng.sample(list(DTYPES) + [">f8", ">i4", "m8[s]", "m8[ms]"], 2)]
    if rng.random() < 0.15:
        dtypes = [np.dtype(d) for d in rng.choice([["f8", ">f8"], ["m8[s]", "m8[ms]"],
                                                   ["i4", ">i4"]])]
    allocators = [np.empty, np.zeros, allocator_a, allocator_b]
    timer = util.Timer()
    limit = 8
    if rng.random() < 0.1:  # many of one kind
        limit, shapes, allocators = 24, shapes[:1], [rng.choice(allocators)]
        dtypes = dtypes[:1]
    open_, most, addresses = [], 0, set()
    for k in range(p["ops"]):
        if open_ and (len(open_) >= limit or rng.random() < (0.45 if limit == 8 else 0.2)):
            rec = open_.pop(rng.randrange(len(open_)))
            leave(rec, rng, mon)
            continue
        kind = rng.choice(["array", "send", "send", "recv", "recv"])
        alloc = rng.choice(allocators)
        rec = dict(kind=kind, stamp=k + 1)
        if kind == "array":
            shape, dtype = rng.choice(shapes), rng.choice(dtypes)
            cm = array_buffer(alloc, shape, dtype)
        else:
            f = send_buffer if kind == "send" else recv_buffer
            kw = {"timer": timer} if rng.random() < 0.5 else {}
            if rng.random() < 0.08:
                with f(alloc, None, **kw) as b:
                    check(b is None, f"{kind}_buffer of None gave {b!r}", "none")
                mon.count("none")
                continue
            shape, dtype = rng.choice(shapes), rng.choice(dtypes)
            mem = Memory(shape, dtype, rng.choice(LAYOUTS), rng.randrange(10**6), cube.ANY)
            rec.update(mem=mem, before=mem.base.copy(), array=mem.view)
            cm = f(alloc, rec["array"], **kw)
        b = cm.__enter__()
        rec.update(cm=cm, buf=b)
        mon.count("buffers")
        mon.count(kind)
        check(b.shape == shape and b.dtype == dtype and b.flags["C_CONTIGUOUS"],
              f"{kind} buffer of shape {b.shape} dtype {b.dtype}, asked for {shape} {dtype}, "
              f"contiguous {b.flags['C_CONTIGUOUS']}", "wrong-buffer")
        own = kind != "array" and rec["array"].flags["C_CONTIGUOUS"]
        if kind == "send":
            check(same_bits(
                np.ascontiguousarray(b), np.ascontiguousarray(rec["array"])),
                "send buffer has other content than the array", "wrong-content")
            mon.count("packed", not own)
        if own:
            check(b is rec["array"] or np.shares_memory(b, rec["array"]),
                  "a contiguous array was copied", "wrong-buffer")
        elif kind != "array":
            check(not np.shares_memory(b, rec["mem"].base), "the buffer of a non-contiguous "
                  "array shares its memory", "wrong-buffer")
        for o in open_:
            mon.count("overlapping")
            if not np.may_share_memory(b, o["buf"]):
                continue
            check(not np.shares_memory(b, o["buf"]), f"a {kind} buffer and an open "
                  f"{o['kind']} buffer share memory", "shared-buffer")
        if not own:
            a = address(b)
            if alloc in (allocator_a, allocator_b):
                check(MADE.get(a) is alloc, "the buffer was not made by the allocator which "
                      "was asked for", "wrong-allocator")
                mon.count("allocators_told_apart")
            mon.count("reused", a in addresses)
            addresses.add(a)
        # use it
        if kind != "send":
            stamp(b, rec["stamp"])
        rec["content"] = b.copy()
        open_.append(rec)
        most = max(most, len(open_))
    while open_:
        leave(open_.pop(rng.randrange(len(open_))), rng, mon)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        timer.times
    check(not caught, "a clock was left running", "timer")
    return p if most > 1 else None


def stamp(b, k):
    flat = (np.arange(b.size) * 7 + k * 31) % 100
    b[...] = (flat.reshape(b.shape) if b.dtype.kind != "b" else (flat % 3 == 0).reshape(
        b.shape)).astype(b.dtype)


def leave(rec, rng, mon):
    check(same_bits(rec["buf"], rec["content"]), f"a {rec['kind']} buffer changed while it "
          "was open", "buffer-changed")
    if rng.random() < 0.12:
        mon.count("left_by_exception")
        e = Boom()
        try:
            swallowed = rec["cm"].__exit__(Boom, e, None)
        except Boom:
            swallowed = False
        check(not swallowed, "an exception was swallowed", "swallowed")
        rec["raised"] = True
    else:
        rec["cm"].__exit__(None, None, None)
    if rec["kind"] == "array":
        return
    own = rec["array"].flags["C_CONTIGUOUS"]
    want = rec["before"].copy()
    if rec["kind"] == "recv":
        if own or not rec.get("raised"):
            v = rec["mem"].view_of(want)
            v[...] = rec["content"]
            mon.count("unpacked", not own)
    check(same_bits(rec["mem"].base, want), f"after a {rec['kind']} buffer the array or its "
          "surroundings hold other values", "wrong-content")
