"""C10: scatter_state / gather_state move whole states: every variable, under its name, and
the time; states given to receive into keep everything that is not transferred."""
import random

import cftime
import numpy as np

from .. import realmpi, simmpi
from ..core import Violation, check
from ..fields import LAYOUTS, first_difference, host, kept, same_bits
from . import c09_scatter_gather as sg
from .c09_scatter_gather import EXTRA, extents, field, make_comm, part, quantity

ID = "C10"
LEVEL = "exploration"
RULE = (
    "A case is a random state (1-5 variables of different dimensions, staggering, dtype; "
    "with or without time, at any place in the dictionary) scattered from the root and "
    "gathered back, on tiles, cubes and tiles of a cube under a seeded hostile MPI schedule, "
    "into new states or into states given by the caller which hold some of the variables, "
    "unrelated ones, and another time; the order of the variables may differ between ranks. Non-trivial: several ranks and several variables.")
COUNTS = {"quick": 900, "thorough": 18000}
REQUIRED = {"variables": 5000, "given_states": 400, "with_time": 300, "without_time": 100,
            "unrelated_kept": 300, "orders_differ": 200, "gathered_into_given": 300}
ASSUMPTIONS = ["all ranks take part with states of the same variables"]

NAMES = ["air_temperature", "u", "v", "time_of_day", "timestep", "pressure", "a b", "T", "t", "temperature"]


def generate(rng, tier):
    kind = rng.choice(["tile", "tile", "cube", "tile-of-cube"])
    layout = [rng.randint(1, 3), rng.randint(1, 3)] if kind == "tile" else \
        [rng.choice([1, 1, 2])] * 2
    cells = [rng.randint(1, 3) for _ in "yx"]
    variables = []
    for name in rng.sample(NAMES, rng.randint(1, 5) if rng.random() < 0.95 else 0):
        dims = rng.sample(EXTRA, rng.choice([0, 0, 1]))
        for pair in (["y", "y_interface"], ["x", "x_interface"]):
            if rng.random() < 0.9:
                dims.append(rng.choice(pair))
        if rng.random() < 0.07:
            dims = []
        rng.shuffle(dims)
        nd = len(dims)

        def pad():
            return [[rng.randint(0, 2), rng.randint(0, 2)] for _ in range(nd)]

        variables.append(dict(
            name=name, dims=dims, cells=cells, lens={d: rng.randint(1, 3) for d in EXTRA},
            dtype=rng.choice(["f8", "f4", "i4", "i8", "b1", "i2", "u1", "c16"]), gpad=[[0, 0]] + pad(),
            lpad=pad(), opad=[[0, 0]] + pad(), glayout=rng.choice(LAYOUTS),
            llayout=rng.choice(LAYOUTS), olayout=rng.choice(LAYOUTS),
            units=rng.choice(["m", "K", "", " Pa "]), seed=rng.randrange(2**31),
            given=[rng.random() < 0.5, rng.random() < 0.5]))
    return dict(kind=kind, layout=layout, variables=variables,
                time=rng.choice([None, [2016, 8, 1, 0, 15, 7], [1999, 12, 31, 23, 59, 59]]),
                time_at=rng.randint(0, 5), given=[rng.random() < 0.6 for _ in range(2)],
                old_time=rng.random() < 0.5, shuffle=rng.random() < 0.6, unrelated=rng.random() < 0.5,
                seed=rng.randrange(2**31))


def directed(tier):
    rng = random.Random(8)
    out = []
    for kind, layout in (("tile", [2, 2]), ("cube", [1, 1]), ("tile-of-cube", [2, 2])):
        for time in (None, [2016, 8, 1, 0, 15, 7]):
            p = generate(rng, "quick")
            p.update(kind=kind, layout=layout, time=time, given=[True, True], old_time=True,
                     unrelated=True)
            out.append(p)
    # arrays of a real model's size, many ranks and variables
    for kind, layout, cells, nz, nv in (("tile", [2, 2], [48, 40], 30, 2),
                                        ("cube", [1, 1], [48, 48], 20, 2),
                                        ("tile", [8, 9], [2, 3], 2, 2),
                                        ("tile-of-cube", [1, 1], [2, 2], 2, 40)):
        p = generate(rng, "quick")
        pads = [[1, 1]] * 3
        v = dict(p["variables"][0], dims=["z", "y", "x_interface"], cells=cells,
                 lens={d: nz for d in EXTRA}, gpad=[[0, 0]] * 4, lpad=pads,
                 opad=[[0, 0]] + pads)
        p.update(kind=kind, layout=layout,
                 variables=[dict(v, name=f"q{i}", seed=i) for i in range(nv)])
        out.append(p)
    return out


OLD = (1850, 1, 2, 3, 4, 5)


def insert_time(items, p, time):
    items = list(items)
    if time is not None:
        items.insert(min(p["time_at"], len(items)), ("time", time))
    return dict(items)


def program(comm, rank, p):
    import fv3gfs.util as util

    c = make_comm(util, comm, p)
    me = c.rank
    per_tile = p["layout"][0] * p["layout"][1]
    salt = rank // per_tile if p["kind"] == "tile-of-cube" else 0
    time = cftime.DatetimeJulian(*p["time"]) if p["time"] else None
    truths, send_items, recv_items, log = {}, [], [], {}
    gathers, into_items = [], []
    for r in p["variables"]:
        g, l = extents(p, r)
        dims = tuple(r["dims"])
        gdims, gext = (("tile",) + dims, (6,) + g) if p["kind"] == "cube" else (dims, g)
        truth = field(r, gext, salt)
        truths[r["name"]] = truth
        send_items.append((r["name"], quantity(util, r, gdims, gext, r["gpad"], r["glayout"],
                                               r["seed"], truth, r["seed"] % 3 == 0)))
        if p["given"][0] and r["given"][0]:
            recv_items.append((r["name"], quantity(
                util, r, dims, l, r["lpad"], r["llayout"], r["seed"] + 10 + rank)))
        tile_part = truth[rank // per_tile] if p["kind"] == "cube" else truth
        gathers.append((r["name"], quantity(
            util, r, dims, l, r["lpad"], r["llayout"], r["seed"] + 500 + rank,
            tile_part[part(p, r, me)], r["seed"] % 5 == 0)))
        if p["given"][1] and r["given"][1]:
            into_items.append((r["name"], quantity(
                util, r, gdims, gext, r["opad"], r["olayout"], r["seed"] + 900 + rank)))
    extra = util.Quantity(np.arange(3.0) + rank, dims=["z"], units="x")
    unrelated = {"unrelated": extra} if p["unrelated"] else {}
    if p["old_time"]:
        unrelated["time"] = cftime.DatetimeJulian(*OLD)

    send_state = insert_time([(n, q[0]) for n, q in send_items], p, time)
    recv_state = {**{n: q[0] for n, q in recv_items}, **unrelated} if p["given"][0] else None
    keys = sorted(send_state)
    if me == 0:
        out = c.scatter_state(send_state, recv_state=recv_state)
    else:
        out = c.scatter_state(recv_state=recv_state)
    log["scatter"] = (out, dict(send_items), dict(recv_items), recv_state,
                      sorted(send_state) == keys)
    my_items = [(n, q[0]) for n, q in gathers]
    if p["shuffle"]:  # ranks list their variables in orders of their own
        random.Random(p["seed"] + rank).shuffle(my_items)
    my_state = insert_time(my_items, p, time)
    mine = dict(my_state)
    into = {**{n: q[0] for n, q in into_items}, **unrelated} if p["given"][1] else None
    if me == 0 or p["seed"] % 3 == 0:  # it is ignored on other ranks
        whole = c.gather_state(my_state, recv_state=into)
    else:
        whole = c.gather_state(my_state)
    log["gather"] = (whole, dict(gathers), dict(into_items), into,
                     list(my_state) == list(mine)
                     and all(my_state[n] is mine[n] for n in mine))
    return me, log, truths, extra, time


def judge(p, results, mon):
    per_tile = p["layout"][0] * p["layout"][1]
    for rank, (me, log, truths, extra, time) in enumerate(results):
        where = f"{p['kind']} {p['layout']} rank {rank}"
        out, sent, recv, recv_state, same_keys = log["scatter"]
        check(same_keys, f"{where}: scatter_state changed the sent dictionary",
              "send-changed")
        names = {r["name"] for r in p["variables"]}
        want_keys = set(names)
        want_time = time
        if p["given"][0]:
            mon.count("given_states")
            want_keys |= {"unrelated"} if p["unrelated"] else set()
            if want_time is None and p["old_time"]:
                want_time = cftime.DatetimeJulian(*OLD)
        want_keys |= {"time"} if want_time is not None else set()
        mon.count("with_time" if time is not None else "without_time")
        check(set(out) == want_keys, f"{where}: scatter_state gave {sorted(out)}, expected "
              f"{sorted(want_keys)}", "scatter-names")
        check(out.get("time") == want_time and type(out.get("time")) is type(want_time),
              f"{where}: scatter_state gave time {out.get('time')!r}, expected "
              f"{want_time!r}", "scatter-time")
        if p["given"][0]:
            check(all(recv_state.get(n) is out[n] or n in names for n in out),
                  f"{where}: scatter_state did not fill the given state", "scatter-given")
            check(set(recv_state) == want_keys,
                  f"{where}: given state has {sorted(recv_state)}", "scatter-given")
        for r in p["variables"]:
            name = r["name"]
            truth = truths[name]
            mine = truth[rank // per_tile] if p["kind"] == "cube" else truth
            want = mine[part(p, r, me)]
            got = host(out[name].view[:])
            kept(out[name], where)
            check(same_bits(got, want), lambda: f"{where}: scatter_state, {name}: "
                  + (first_difference(got, want) if got.shape == want.shape
                     else f"shape {got.shape} for {want.shape}"), "scatter-value")
            check(out[name].dims == tuple(r["dims"]) and out[name].units == r["units"],
                  f"{where}: scatter_state gave {name} dims {out[name].dims} units "
                  f"{out[name].units!r}", "scatter-metadata")
            mon.count("variables")
            if name in recv:
                check(same_bits(host(recv[name][0].view[:]), want),
                      f"{where}: given quantity {name} was not filled", "scatter-given")
                sg.untouched(f"{where} scatter_state {name}", *recv[name])
            check(same_bits(sent[name][1].base, sent[name][2]),
                  f"{where}: scatter_state changed the sent {name}", "send-changed")
        check(np.array_equal(extra.data, np.arange(3.0) + rank),
              f"{where}: an unrelated variable changed", "unrelated-changed")
        mon.count("unrelated_kept", p["unrelated"])
        whole, gm, into, into_state, same = log["gather"]
        check(same, f"{where}: gather_state changed the sent dictionary", "send-changed")
        mon.count("orders_differ", p["shuffle"] and len(names) > 1 and rank == 0)
        for name, g in gm.items():
            check(same_bits(g[1].base, g[2]), f"{where}: gather_state changed the sent "
                  f"{name}", "send-changed")
        if me != 0:
            # nothing is gathered here: no new state, and a given one stays as it is
            keeps = set(into) | ({"unrelated"} if p["unrelated"] else set()) | (
                {"time"} if p["old_time"] else set())
            check(not whole or whole is into_state,
                  f"{where}: gather_state returned {whole} off root", "gather-off-root")
            if into_state is not None:
                check(set(into_state) == keeps and all(
                    into_state[n] is g[0] for n, g in into.items())
                    and (not p["old_time"]
                         or into_state["time"] == cftime.DatetimeJulian(*OLD)),
                      f"{where}: gather_state changed the state given off root to "
                      f"{into_state}", "gather-off-root")
            for name, g in into.items():
                check(same_bits(g[1].base, g[2]), f"{where}: gather_state wrote off root",
                      "stray-write")
            continue
        want_time = time
        want_keys = set(names)
        if p["given"][1]:
            want_keys |= {"unrelated"} if p["unrelated"] else set()
            if want_time is None and p["old_time"]:
                want_time = cftime.DatetimeJulian(*OLD)
        want_keys |= {"time"} if want_time is not None else set()
        check(set(whole) == want_keys, f"{where}: gather_state gave {sorted(whole)}, "
              f"expected {sorted(want_keys)}", "gather-names")
        check(whole.get("time") == want_time, f"{where}: gather_state gave time "
              f"{whole.get('time')!r}, expected {want_time!r}", "gather-time")
        if p["given"][1]:
            mon.count("gathered_into_given")
            check(set(into_state) == want_keys and into_state.get("time") == want_time
                  and all(into_state[n] is whole[n] or n in names for n in whole)
                  and all(into_state[n] is g[0] for n, g in into.items()),
                  f"{where}: gather_state did not fill the given state, which has "
                  f"{sorted(into_state)}", "gather-given")
        for r in p["variables"]:
            name = r["name"]
            truth = truths[name]
            got = host(whole[name].view[:])
            kept(whole[name], where)
            check(same_bits(got, truth), lambda: f"{where}: gather_state, {name}: "
                  + (first_difference(got, truth) if got.shape == truth.shape
                     else f"shape {got.shape} for {truth.shape}"), "gather-value")
            gdims = tuple(r["dims"])
            gdims = ("tile",) + gdims if p["kind"] == "cube" else gdims
            check(whole[name].dims == gdims and whole[name].units == r["units"],
                  f"{where}: gather_state gave {name} dims {whole[name].dims}",
                  "gather-metadata")
            if name in into:
                check(same_bits(host(into[name][0].view[:]), truth),
                      f"{where}: given quantity {name} was not filled", "gather-given")
                sg.untouched(f"{where} gather_state {name}", *into[name])


def run(p, mon):
    size = p["layout"][0] * p["layout"][1] * (1 if p["kind"] == "tile" else 6)
    world = simmpi.random_world(size, random.Random(p["seed"]))
    results = world.run(lambda comm, rank: program(comm, rank, p))
    simmpi.observe(mon, world)
    judge(p, results, mon)
    return p if size > 1 and len(p["variables"]) > 1 else None


def world_size(p):
    return p["layout"][0] * p["layout"][1] * (1 if p["kind"] == "tile" else 6)


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
