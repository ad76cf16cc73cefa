"""C24: times read from coupler.res and converted from numpy are exact."""
import datetime
import io
import os
import random
import time

import cftime
import numpy as np

from ..core import Violation, check

ID = "C24"
LEVEL = "exploration"
RULE = (
    "A case reads coupler.res text with a random date in each of the four FMS calendars and "
    "random spacing and comments, and converts random numpy datetimes of all units "
    "(scalars, years 1 to 9999, before and after 1970) with datetime64_to_datetime in a "
    "process whose local time zone is random. "
    "Non-trivial: always.")
COUNTS = {"quick": 6000, "thorough": 150000}
REQUIRED = {"coupler_files": 6000, "datetimes": 30000, "before_1970": 10000, "bad_files": 6000,
            "time_zones": 5}
ASSUMPTIONS = ["numpy datetimes in whole microseconds, years 1 to 9999 (of nanoseconds 1678 to 2262)"]
CAL = {1: cftime.Datetime360Day, 2: cftime.DatetimeJulian, 3: cftime.DatetimeGregorian,
       4: cftime.DatetimeNoLeap}


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31))


def directed(tier):
    return [dict(seed=s) for s in range(4)]


def run(p, mon):
    import fv3gfs.util as util
    from fv3gfs.util import io as uio

    rng = random.Random(p["seed"])
    for cal, cls in CAL.items():
        y, m, d = rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28)
        if rng.random() < 0.3:
            m, d = rng.choice([(2, 28), (12, 30), (1, 30), (12, 31)])
            if cal == 1:
                d = min(d, 30)
        if cal == 3 and y == 1582:
            y = 1583
        t = [y, m, d, rng.randrange(24), rng.randrange(60), rng.randrange(60)]
        start = [rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28), 1, 2, 3]

        def line(values, comment):
            w = rng.choice([5, 6, 8])
            s = "".join(f"{v:{w}d}" for v in values) if rng.random() < 0.8 else \
                " ".join(str(v) for v in values)
            return s + (rng.choice(["        ", "\t"]) + comment if rng.random() < 0.9 else "")

        lines = [line([cal], "(Calendar: no_calendar=0, thirty_day_months=1, julian=2, "
                             "gregorian=3, noleap=4)"),
                 line(start, "Model start time:   year, month, day, hour, minute, second"),
                 line(t, "Current model time: year, month, day, hour, minute, second")]
        text = "\n".join(lines) + rng.choice(["", "\n", "\n\n"])
        got = uio.get_current_date_from_coupler_res(io.StringIO(text))
        want = cls(*t)
        check(type(got) is cls and got.calendar == want.calendar and (
            got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond)
            == tuple(t) + (0,), f"coupler.res with {t} in calendar {cal} read as {got!r}",
            "coupler-time")
        mon.count("coupler_files")
        bad = rng.choice([
            "\n".join(lines[:2]) + "\n", "", "\n".join([lines[0], lines[1], "2016 8 1 0"]),
            "\n".join(["x"] + lines[1:]), "\n".join(["17"] + lines[1:]),
            "\n".join([lines[0], lines[1], "2016 13 1 0 0 0"]),
            "\n".join([lines[0], lines[1], "2016.5 8 1 0 0 0"]),
            "\n".join([lines[0], lines[1], "2016 8 1 0 0 0x1"]),
            "\n".join([lines[0], lines[1], "2016 8 1 0 60 0"]),
            "\n".join([lines[0], lines[1], rng.choice(
                ["2016 -8 1 0 0 0", "2016 8 -1 0 0 0", "2016 8 1 -1 0 0", "2016 8 1 0 -5 0",
                 "2016 8 1 0 0 -1", "2016 0 1 0 0 0", "2016 8 0 0 0 0"])]),
            "\n".join(["-3"] + lines[1:])])
        try:
            got = uio.get_current_date_from_coupler_res(io.StringIO(bad))
        except Exception:
            mon.count("bad_files")
        else:
            raise Violation(f"the damaged coupler.res {bad!r} was read as {got!r}",
                            "accepts-invalid")
    epoch = datetime.datetime(1970, 1, 1)
    zone = rng.choice(["UTC", "EST5EDT", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX-14", "YYY12",
                       "NST3:30NDT"])
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = zone
        time.tzset()
        mon.seen("time_zones", zone)
        datetimes(rng, mon, util, epoch, zone)
    finally:
        os.environ.pop("TZ")
        if old is not None:
            os.environ["TZ"] = old
        time.tzset()
    return p


def datetimes(rng, mon, util, epoch, zone):
    for unit in ("ns", "us", "ms", "s", "m", "h", "D"):
        sec = rng.choice([rng.randint(-9214560000, 9214560000), rng.randint(-10**6, 10**6), 0])
        if unit != "ns" and rng.random() < 0.4:  # years 1 to 9999
            sec = rng.randint(-62135596800, 253402300799)
        us = {"ns": rng.randrange(10**6), "us": rng.randrange(10**6),
              "ms": rng.randrange(1000) * 1000}.get(unit, 0)
        if unit in "mhD":
            step = {"m": 60, "h": 3600, "D": 86400}[unit]
            sec -= sec % step
        want = epoch + datetime.timedelta(seconds=sec, microseconds=us)
        dt = np.datetime64(want).astype(f"datetime64[{unit}]")
        got = util.datetime64_to_datetime(dt)
        check(isinstance(got, datetime.datetime) and got.tzinfo is None
              and got == want,
              f"{dt!r} converted to {got!r}, expected {want!r} (time zone {zone})", "datetime")
        mon.count("datetimes")
        mon.count("before_1970", want < epoch)
