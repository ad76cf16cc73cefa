"""C19: nudging tendencies and their application."""
import datetime
import random

import numpy as np

from ..core import Violation, check
from ..fields import LAYOUTS, Memory, first_difference, host, place, same_bits

ID = "C19"
LEVEL = "exploration"
RULE = (
    "A case is a random state and reference state (1-4 variables of 0-4 dimensions, f4/f8, "
    "different halos and memory layouts on both sides), time scales for some of them and a "
    "time step; get_nudging_tendencies and apply_nudging are compared with the formula on "
    "plain arrays, halos, the reference, other variables and units included; then repeated on "
    "the nudged state. Non-trivial: at least one nudged variable with a halo.")
COUNTS = {"quick": 6000, "thorough": 150000}
REQUIRED = {"tendencies": 20000, "applied": 9000, "zero_dim": 500, "other_variables": 2000,
            "missing_names": 1000, "reference_in_state": 1500}
ASSUMPTIONS = ["floating point variables", "state and reference have the same dims and extent"]


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), n=rng.randint(1, rng.choice([4] * 15 + [12])))


def directed(tier):
    return [dict(seed=s, n=2) for s in range(10)]


def make(util, rng, dims, ext, dtype, units, readonly=False):
    pads = [[rng.randint(0, 3), rng.randint(0, 3)] for _ in dims]
    shape = [a + n + b for n, (a, b) in zip(ext, pads)]
    mem = Memory(shape, dtype, rng.choice(LAYOUTS), rng.randrange(10**6))
    vals = np.array([rng.uniform(-1, 1) * 10 ** rng.randint(-3, 5)
                     for _ in range(mem.base.size)]).reshape(mem.base.shape)
    mem.base[...] = vals.astype(dtype)
    origin = [a for a, b in pads]
    q = util.Quantity(place(mem.view, origin, readonly), dims=dims, units=units, origin=origin,
                      extent=ext)
    return q, mem


def inner(mem, q):
    v = mem.view
    return v[tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))] if q.dims else v


def close(got, want, scale, dtype):
    eps = np.finfo(dtype).eps
    tol = 8 * eps * scale + 1e-30
    return got.shape == want.shape and bool(np.all(np.abs(
        got.astype("f8") - want.astype("f8")) <= tol))


def run(p, mon):
    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    state, ref, mems, refmems, scales = {}, {}, {}, {}, {}
    name = None
    for k in range(p["n"]):
        previous = name
        name = rng.choice(["air_temperature", "specific_humidity", "x_wind", "p"]) + str(k)
        # a variable may be nudged towards another one of the same state
        other = previous is not None and rng.random() < 0.2
        if not other:
            dims = rng.sample(["x", "x_interface", "y", "y_interface", "z", "tracer"],
                              rng.choice([0, 1, 2, 2, 3, 4]))
            ext = [rng.randint(1, rng.choice([4] * 20 + [15, 40])) for _ in dims]
            dtype = rng.choice(["f8", "f8", "f4"])
            units = rng.choice(["K", "m/s", "", "kg/kg"])
        state[name], mems[name] = make(util, rng, dims, ext, dtype, units)
        if other:
            ref[name], refmems[name] = state[previous], mems[previous]
            mon.count("reference_in_state")
        else:
            ref[name], refmems[name] = make(util, rng, dims, ext, dtype,
                                            units + rng.choice(["", "", " "]),
                                            rng.random() < 0.3)
        if k == 0 or rng.random() < 0.7:
            scales[name] = datetime.timedelta(seconds=rng.choice(
                [1, 900, 3600, 10800.5, 86400, 86400 * 30, 0.25, 86400 * 1.5, 3600.000007, 2e-6]))
    extra = datetime.datetime(2016, 8, 1)
    if rng.random() < 0.5:
        state["time"] = extra
        ref["time"] = extra
    dt = datetime.timedelta(seconds=rng.choice([0, 1, 225, 900, 900.25, 86400 * 2, 10.5, 0.000123, 7.000001]))
    hits, kept = 0, []
    for repeat in range(2):
        before = {n: m.base.copy() for n, m in mems.items()}
        rbefore = {n: m.base.copy() for n, m in refmems.items()}
        rvals = {n: np.array(inner(m, ref[n])) for n, m in refmems.items()}
        keys = list(state)
        plain = util.get_nudging_tendencies(state, ref, scales)
        for n in mems:
            check(same_bits(mems[n].base, before[n]),
                  f"get_nudging_tendencies changed {n}", "state-changed")
        applied = util.apply_nudging(state, ref, scales, dt)
        check(list(state) == keys, "apply_nudging changed the state's keys", "state-changed")
        for tendencies in (plain, applied):
            check(set(tendencies) == set(scales), f"tendencies of {sorted(tendencies)}, "
                  f"expected {sorted(scales)}", "names")
            for n, scale in scales.items():
                q = state[n]
                old = mems[n].view_of(before[n])
                old = old[tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))] \
                    if q.dims else old
                r = rvals[n]
                want = (r.astype("f8") - np.asarray(old).astype("f8")) / scale.total_seconds()
                size = (np.abs(r).astype("f8") + np.abs(old)) / scale.total_seconds()
                t = tendencies[n]
                got = host(t.view[:])
                check(close(got, want, size, q.data.dtype),
                      lambda: f"tendency of {n} with time scale {scale}: "
                      + (first_difference(got, want) if got.shape == want.shape
                         else f"shape {got.shape}"), "wrong-tendency")
                check(t.dims == q.dims and t.units == q.units + " s^-1",
                      f"tendency of {n}: dims {t.dims} units {t.units!r}", "metadata")
                check(not np.shares_memory(host(t.data), mems[n].base)
                      and not np.shares_memory(host(t.data), refmems[n].base),
                      f"tendency of {n} shares memory with the state", "shared-memory")
                mon.count("tendencies")
                kept.append((n, host(t.data), np.array(host(t.data))))
                mon.count("zero_dim", not q.dims)
                hits += q.data.size > q.view[:].size
        for n, m in mems.items():
            q = state[n]
            new = m.base
            if n not in scales:
                check(same_bits(new, before[n]), f"{n} changed without a time scale",
                      "other-variable-changed")
                mon.count("other_variables")
                continue
            old = m.view_of(before[n])
            r = rvals[n].astype("f8")
            sel = tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))
            o = np.asarray(old[sel] if q.dims else old).astype("f8")
            f = dt.total_seconds() / scales[n].total_seconds()
            want = o + (r - o) * f
            got = np.asarray(inner(m, q))
            check(close(got, want, (np.abs(o) + np.abs(r)) * (1 + f), q.data.dtype),
                  lambda: f"{n} nudged with factor {f}: {first_difference(got, want)}",
                  "wrong-state")
            # everything but the compute domain
            e = before[n].copy()
            v = m.view_of(e)
            if q.dims:
                v[sel] = got
            else:
                v[...] = got
            check(same_bits(e, new), f"halo of {n} changed", "halo-changed")
            mon.count("applied")
        for n, m in refmems.items():
            if any(m is x for x in mems.values()):
                continue
            check(same_bits(m.base, rbefore[n]), f"the reference {n} changed",
                  "reference-changed")
    for n, now, then in kept:
        check(same_bits(np.asarray(now), then), f"the tendency of {n} changed later",
              "shared-memory")
    some = rng.choice(list(scales))
    for s, r in (({k: v for k, v in state.items() if k != some}, ref),
                 (state, {k: v for k, v in ref.items() if k != some})):
        before = {n: m.base.copy() for n, m in mems.items()}
        try:
            util.apply_nudging(s, r, scales, dt)
        except Exception:
            mon.count("missing_names")
        else:
            raise Violation(f"{some} missing in the state or reference was not reported",
                            "accepts-invalid")
        for n, m in mems.items():
            check(same_bits(m.base, before[n]), f"{n} changed by a rejected nudging",
                  "state-changed")
    return p if hits else None
