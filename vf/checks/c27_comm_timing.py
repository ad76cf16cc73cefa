"""C27: the communicator's timings account for its transfers and never disturb them, also when
transfers fail."""
import random
import warnings
from timeit import default_timer as clock

import numpy as np

from .. import simmpi
from ..core import Violation, check
from ..fields import same_bits
from . import c01_scalar_halo as scalar
from . import c04_async_updates as updates
from . import c09_scatter_gather as parts

ID = "C27"
LEVEL = "exploration"
RULE = (
    "First part of a case: a random program of overlapping updates (as in C04, on the hostile "
    "MPI simulator) during which the communicator's timer is enabled, disabled, reset, read or "
    "replaced (NullTimer, another Timer) between the steps; a recorder between communicator "
    "and MPI measures and counts every transfer, the data are judged as in C04. Second part: "
    "one rank on a recording MPI stand-in where the k-th send, receive or completion fails; "
    "monitored are the error which arrives, running clocks, the memory outside the halo and "
    "what the next update sends. Third part: scatter and gather in which the same collective "
    "call fails on all ranks, and which are then repeated: the error, the quantities, the "
    "results (judged as in C09). Non-trivial: the timer was toggled or a transfer failed.")
COUNTS = {"quick": 500, "thorough": 9000}
REQUIRED = {"executions": 120, "accounts_checked": 10000, "toggles": 2000,
            "failed_transfers": 1500, "updates_after_failure": 1500, "rejected": 1000,
            "failed_collectives": 500}
ASSUMPTIONS = ["the timer is not changed while a call is in progress"]
EPS = 2e-6


def generate(rng, tier):
    p = updates.generate(rng, tier)
    p["toggle"] = rng.choice([0.0, 0.2, 0.5])
    p["sim"] = rng.random() < 0.4
    p["collective"] = None
    while rng.random() < 0.5 and p["collective"] is None:
        q = parts.generate(rng, tier)
        if q["kind"] != "tile-of-cube":
            p["collective"] = q
    return p


def directed(tier):
    return [dict(p, toggle=0.4, sim=True) for p in updates.directed(tier)[:8]]


class Recorder:
    """between communicator and MPI: measures transfers"""

    def __init__(self, comm):
        self._comm = comm
        self.cs = None
        self.account = None

    def __getattr__(self, name):
        return getattr(self._comm, name)

    def _timed(self, name, f, *args, **kw):
        t = clock()
        try:
            return f(*args, **kw)
        finally:
            if self.account is not None and self.cs.timer.enabled:
                self.account.inner(name, clock() - t)

    def Isend(self, *args, **kw):
        return self._timed("Isend", self._comm.Isend, *args, **kw)

    def Recv(self, *args, **kw):
        return self._timed("Recv", self._comm.Recv, *args, **kw)


class Account:
    """what a timer must and may have counted"""

    def __init__(self, timer):
        self.timer = timer
        self.clear()

    def clear(self):
        self.low, self.hits, self.elapsed, self.halo_updates = {}, {}, 0.0, 0

    def inner(self, name, t):
        self.low[name] = self.low.get(name, 0.0) + t
        self.hits[name] = self.hits.get(name, 0) + 1

    def judge(self, mon):
        t = self.timer
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            times, hits = t.times, t.hits
        check(not w, lambda: f"after the call clocks are still running: {w[0].message}",
              "clock-left-running")
        for name in ("Isend", "Recv"):
            n, want = hits.get(name, 0), self.hits.get(name, 0)
            check(n == want, lambda: f"the timer counted {n} times {name}, there were {want}",
                  "wrong-hits")
            got, low = times.get(name, 0.0), self.low.get(name, 0.0)
            check(got >= low - EPS - 1e-9 * low,
                  lambda: f"{name} is credited {got} s, but took at least {low} s",
                  "wrong-time")
        if self.halo_updates:
            for name in ("pack", "unpack", "Isend", "Recv"):
                check(hits.get(name, 0) > 0 and name in times,
                      lambda: f"no {name} was timed in {self.halo_updates} halo updates",
                      "missing-time")
        total = sum(times.values())
        check(all(v >= 0 for v in times.values()) and
              total <= self.elapsed + EPS * (1 + sum(hits.values())),
              lambda: f"times {times} add up to more than the {self.elapsed} s the calls took",
              "wrong-time")
        check(set(times) == set(hits), lambda: f"times of {sorted(times)}, hits of "
              f"{sorted(hits)}", "wrong-hits")
        mon.count("accounts_checked")


def toggle(util, cs, rec, rng, mon):
    timer = cs.timer
    mon.count("toggles")
    u = rng.random()
    if u < 0.3:
        try:
            timer.disable()
        except RuntimeError as e:
            raise Violation(f"between calls the timer cannot be disabled: {e}",
                            "clock-left-running")
    elif u < 0.6 and type(timer) is util.Timer:
        timer.enable()
    elif u < 0.75:
        timer.reset()
        rec.account.clear()
    else:
        cs.timer = rng.choice([util.Timer, util.Timer, util.NullTimer])()
        rec.account = Account(cs.timer)


def program(comm, rank, p, mon):
    import fv3gfs.util as util

    rng = random.Random(f"{p['seed']}/{rank}")
    rec = Recorder(comm)
    cs = scalar.communicator(util, rec, p["L"])
    rec.cs, rec.account = cs, Account(cs.timer)
    data, reqs = [], {}
    for op in p["ops"]:
        if op["kind"] == "scalar":
            data.append(scalar.build(util, op, rank))
        else:
            data.append([updates.MODULES[op["kind"]].build(util, op, rank, w)
                         for w in (0, 1)])
    for what, k in p["events"]:
        if what not in ("start", "wait"):
            continue
        if rng.random() < p["toggle"]:
            toggle(util, cs, rec, rng, mon)
        enabled, t = cs.timer.enabled, clock()
        if what == "start":
            op = p["ops"][k]
            if op["kind"] == "scalar":
                reqs[k] = cs.start_halo_update(data[k][0], op["n_points"])
            elif op["kind"] == "vector":
                reqs[k] = cs.start_vector_halo_update(
                    data[k][0][0], data[k][1][0], op["n_points"])
            else:
                reqs[k] = cs.start_synchronize_vector_interfaces(
                    data[k][0][0], data[k][1][0])
            born = enabled
            reqs[k] = (reqs[k], cs.timer if born and op["kind"] != "sync" else None)
        else:
            req, at_start = reqs.pop(k)
            req.wait()
            if enabled and at_start is cs.timer and p["toggle"] == 0.0:
                rec.account.halo_updates += 1
        if enabled:
            rec.account.elapsed += clock() - t
        rec.account.judge(mon)
    return data, []


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class MPIError(RuntimeError):  # as mpi4py's own
    pass


ERRORS = [Boom, Boom, BaseBoom, OSError, KeyboardInterrupt, MPIError, RuntimeError, ValueError,
          TypeError, KeyError, IndexError, AttributeError, NotImplementedError, MemoryError,
          StopIteration, TimeoutError]


class StandIn:
    """MPI as one rank sees it: records what is sent, fails when told to"""

    def __init__(self, rank, size):
        self.rank, self.size = rank, size
        self.fail, self.error = None, None
        self.clear()

    def clear(self):
        self.sent, self.counts = [], {"send": 0, "recv": 0, "done": 0}

    def _at(self, what):
        k = self.counts[what]
        self.counts[what] += 1
        if self.fail == (what, k):
            raise self.error

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Isend(self, buf, dest, tag=0, **kw):
        self._at("send")
        view, dtype = simmpi.raw_view(buf)
        self.sent.append((int(dest), str(dtype), view.tobytes()))
        return self

    def Recv(self, buf, source=0, tag=0, **kw):
        view, _ = simmpi.raw_view(buf, writable=True)
        self._at("recv")
        view[...] = 0

    def Irecv(self, buf, source=0, tag=0, **kw):
        self.Recv(buf, source, tag)
        return self

    def wait(self, status=None):
        self._at("done")

    Wait = wait


def call(cs, op, quantities, blocking, n_points=None):
    n = op["n_points"] if n_points is None else n_points
    if op["kind"] == "scalar":
        f, args = ("halo_update", (quantities[0], n))
    elif op["kind"] == "vector":
        f, args = ("vector_halo_update", (quantities[0], quantities[1], n))
    else:
        f, args = ("synchronize_vector_interfaces", tuple(quantities))
    if blocking:
        getattr(cs, f)(*args)
    else:
        getattr(cs, "start_" + f)(*args).wait()


def failing(p, op, rng, mon):
    import fv3gfs.util as util

    L = p["L"]
    rank = rng.randrange(6 * L * L)
    if op["kind"] == "scalar":
        rows = [scalar.build(util, op, rank)]
    else:
        rows = [updates.MODULES[op["kind"]].build(util, op, rank, w) for w in (0, 1)]
    quantities = [r[0] for r in rows]
    before = [r[1].base.copy() for r in rows]

    def restore():
        for r, b in zip(rows, before):
            r[1].base[...] = b

    fresh = StandIn(rank, 6 * L * L)
    ref = scalar.communicator(util, fresh, L)
    call(ref, op, quantities, True)
    after = [r[1].base.copy() for r in rows]
    counts = dict(fresh.counts)
    restore()

    mpi = StandIn(rank, 6 * L * L)
    cs = scalar.communicator(util, mpi, L)
    if rng.random() < 0.3:
        cs.timer.disable()
    for _ in range(3):
        if rng.random() < 0.4 and op["kind"] != "sync":
            bad = rng.choice([0, op["n"] + 60])
            try:
                call(cs, op, quantities, rng.random() < 0.5, bad)
            except (ValueError, IndexError):
                pass
            except Exception as e:
                raise Violation(f"an update of {bad} points fails with {e!r}",
                                "rejection")
            else:
                raise Violation(f"an update of {bad} points was accepted", "rejection")
            check(not mpi.sent, "a rejected update sent messages", "rejection")
            mon.count("rejected")
            quiet(cs, "a rejected update")
            check(all(np.array_equal(r[1].base, b) or same_bits(r[1].base, b)
                      for r, b in zip(rows, before)),
                  "a rejected update changed data", "rejection")
            mpi.clear()
        what = rng.choice([w for w in counts if counts[w]])
        mpi.clear()
        mpi.fail = (what, rng.randrange(counts[what]))
        mpi.error = rng.choice(ERRORS)("planned failure")
        story = f"{op['kind']} update whose {what} number {mpi.fail[1]} fails"
        got = None
        try:
            call(cs, op, quantities, rng.random() < 0.5)
        except BaseException as e:
            got = e
        if isinstance(got, Violation):
            raise got
        check(got is not None, f"{story}: the error did not reach the caller",
              "error-swallowed")
        chain, e = [], got
        while e is not None and len(chain) < 10:
            chain.append(e)
            e = e.__cause__ or e.__context__
        check(got is mpi.error or any(x is mpi.error for x in chain),
              lambda: f"{story}: the caller sees {got!r}", "error-replaced")
        mon.count("failed_transfers")
        mon.seen("failure_points", [op["kind"], *mpi.fail])
        quiet(cs, story)
        # nothing but points which the update writes may have changed
        for r, b, a in zip(rows, before, after):
            base = r[1].base
            ok = (base == b) | (base == a) | ((base != base) & (b != b))
            written = ~((a == b) | ((a != a) & (b != b)))
            check(bool(np.all(ok | written)),
                  f"{story}: points which the update does not write changed", "failed-write")
        restore()
        mpi.fail = None
        mpi.clear()
        hits = cs.timer.hits.get("Isend", 0), cs.timer.hits.get("Recv", 0)
        call(cs, op, quantities, rng.random() < 0.5)
        check(sorted(mpi.sent) == sorted(fresh.sent),
              f"after a {story} the next update sends other messages", "failure-remembered")
        check(all(same_bits(r[1].base, a) for r, a in zip(rows, after)),
              f"after a {story} the next update writes other data", "failure-remembered")
        now = cs.timer.hits.get("Isend", 0), cs.timer.hits.get("Recv", 0)
        want = (counts["send"], counts["recv"]) if cs.timer.enabled else (0, 0)
        check((now[0] - hits[0], now[1] - hits[1]) == want,
              f"after a {story} the timer counts {now} after {hits}, expected {want} more",
              "wrong-hits")
        mon.count("updates_after_failure")
        restore()
        mpi.clear()


COLLECTIVES = {a + n for n in ("cast", "catter", "catterv", "ather", "atherv", "llgather",
                               "arrier", "lltoall", "educe", "llreduce") for a in
               ("b", "B", "s", "S", "g", "G", "a", "A", "r", "R")} | {"bcast", "Bcast"}


class FailingCollectives:
    """every rank's k-th collective call from now on fails"""

    def __init__(self, comm):
        self._comm, self._left, self._error, self.fired = comm, None, None, False

    def arm(self, k, error):
        self._left, self._error, self.fired = k, error, False

    def __getattr__(self, name):
        f = getattr(self._comm, name)
        if name not in COLLECTIVES:
            return f

        def call(*args, **kw):
            if self._left is not None:
                self._left -= 1
                if self._left < 0:
                    self._left, self.fired = None, True
                    raise self._error
            return f(*args, **kw)

        return call


def retried(wrap, rng, mon, story, f, watched, written):
    """f() with a failure in it, and then once more. watched: quantities f may not change;
    written: the one whose compute domain it may change"""
    error = rng.choice(ERRORS)("planned failure")
    wrap.arm(rng.randrange(3), error)
    got = None
    try:
        result = f()
    except BaseException as e:
        got = e
    if not wrap.fired:
        wrap.arm(None, None)
        if got is not None:
            raise got
        return result
    check(got is not None, f"{story}: the error did not reach the caller", "error-swallowed")
    chain, e = [], got
    while e is not None and len(chain) < 10:
        chain.append(e)
        e = e.__cause__ or e.__context__
    if isinstance(got, Violation) or not any(
            x is error for x in chain):
        raise got
    for q in watched:
        if q:
            check(same_bits(q[1].base, q[2]), f"{story}: a quantity which is sent changed",
                  "failed-write")
    if written:
        parts.untouched(story, *written)
    mon.count("failed_collectives")
    return f()


def collective(comm, rank, p, mon):
    """C09's program, in which collective calls fail and everything is then repeated"""
    import fv3gfs.util as util

    rng = random.Random(p["seed"])  # the same on every rank
    wrap = FailingCollectives(comm)
    c = parts.make_comm(util, wrap, p)
    log = []
    per = p["layout"][0] * p["layout"][1]
    for r in p["rounds"]:
        g, l = parts.extents(p, r)
        dims = tuple(r["dims"])
        gdims, gext = (("tile",) + dims, (6,) + g) if p["kind"] == "cube" else (dims, g)
        truth = parts.field(r, gext, 0)
        send = parts.quantity(util, r, gdims, gext, r["gpad"], r["glayout"],
                              r["seed"] + rank, truth) if rank == 0 else None
        recv = parts.quantity(util, r, dims, l, r["lpad"], r["llayout"],
                              r["seed"] + 100 + rank)
        is_given = parts.given(r, 0, rank)
        out = retried(wrap, rng, mon, "scatter with a failing collective call",
                      lambda: c.scatter(send_quantity=send[0] if send else None,
                                        recv_quantity=recv[0] if is_given else None),
                      [send], recv)
        part = (truth[rank // per] if p["kind"] == "cube" else truth)[parts.part(p, r, rank)]
        mine = parts.quantity(util, r, dims, l, r["lpad"], r["llayout"],
                              r["seed"] + 200 + rank, part)
        into = parts.quantity(util, r, gdims, gext, r["opad"], r["olayout"],
                              r["seed"] + 300 + rank)
        got = retried(wrap, rng, mon, "gather with a failing collective call",
                      lambda: c.gather(mine[0],
                                       recv_quantity=into[0] if r["given"][1] else None),
                      [mine], into)
        log.append(dict(scatter=(send, recv, out, truth.copy()), gather=(mine, into, got),
                        me=rank))
    return log


def quiet(cs, story):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        cs.timer.times
        cs.timer.hits
    check(not w, lambda: f"after {story} clocks are still running: {w[0].message}",
          "clock-left-running")


def run(p, mon):
    rng = random.Random(p["seed"])
    if p["sim"]:
        world = simmpi.random_world(6 * p["L"] ** 2, random.Random(p["seed"]))
        results = world.run(lambda comm, rank: program(comm, rank, p, mon))
        simmpi.observe(mon, world)
        updates.judge(p, results, mon)
    for op in p["ops"][:3]:
        failing(p, op, rng, mon)
    q = p.get("collective")
    if q:
        world = simmpi.random_world(parts.world_size(q), random.Random(p["seed"]))
        results = world.run(lambda comm, rank: collective(comm, rank, q, mon))
        simmpi.observe(mon, world)
        parts.judge(q, results, mon)
    return p
