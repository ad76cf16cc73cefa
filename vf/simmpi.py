"""A hostile, deterministic, monitored MPI.

Every rank of the program under test is a thread, but only one runs at a time: a seeded
scheduler hands a baton from rank to rank at MPI calls, so an execution is a function of
(program, seed) and every interleaving MPI allows at call granularity is reachable.

What the simulated MPI does that a friendly mock does not:

* Isend is eager (data taken at once) or rendezvous (data read as late as MPI permits,
  and the send completes only once it has been received), chosen per message.
* message delivery is delayed by a random number of scheduler steps (order between one
  pair of ranks is kept, as MPI requires).
* tags are matched; receive buffers are scribbled on when posted (MPI leaves their content
  undefined until completion).
* collectives may or may not synchronise; mismatching collectives are reported.

What it watches (raises Violation): deadlock, unmatched messages left at the end, message
size / dtype mismatch, tag out of the range each MPI guarantees, send buffer changed while
in flight, overlapping live receive buffers, non contiguous buffers (ValueError as mpi4py),
mismatched collectives, requests that were never completed.
"""
import pickle
import threading

import numpy as np

from .core import Violation, digest

ANY = -1
TAG_UB = 32767  # the least upper bound for tags which MPI guarantees
POISON = 0xFB


class _Abort(BaseException):
    """unwinds the rank threads of an execution that has been decided"""


def raw_view(buf, writable=False):
    """the memory of a buffer as bytes, in memory order, as mpi4py would address it"""
    arr = getattr(buf, "_h", buf)  # device arrays: as a CUDA-aware MPI does
    if not isinstance(arr, np.ndarray):
        arr = np.asarray(buf)
        if writable:
            raise TypeError("receive buffer must be an array")
    if not (arr.flags["C_CONTIGUOUS"] or arr.flags["F_CONTIGUOUS"]):
        raise ValueError("ndarray is not contiguous")
    if writable and not arr.flags.writeable:
        raise ValueError("buffer source array is read-only")
    if not arr.flags["C_CONTIGUOUS"]:
        arr = arr.T
    return arr.reshape(-1).view(np.uint8), arr.dtype


class _Msg:
    __slots__ = (
        "src", "dst", "tag", "view", "dtype", "nbytes", "eager", "data", "mark",
        "visible_at", "matched", "done", "waited", "ref", "n",
    )


class _Recv:
    __slots__ = ("src", "tag", "view", "dtype", "msg", "done", "rank", "ref")


class Request:
    def __init__(self, world, rank, is_done, finish, desc):
        self._world, self._rank = world, rank
        self._is_done, self._finish, self._desc = is_done, finish, desc
        self._completed = False
        world.open_requests += 1

    def _complete(self):
        if not self._completed:
            self._completed = True
            self._world.open_requests -= 1
            self._finish()

    def wait(self, status=None):
        self._world.step(self._rank, "wait")
        if not self._completed:
            self._world.block(self._rank, self._is_done, self._desc)
            self._complete()

    Wait = wait

    def test(self):
        self._world.step(self._rank, "test")
        if self._completed:
            return True, None
        if self._is_done():
            self._complete()
            return True, None
        return False, None

    def Test(self):
        return self.test()[0]


class World:
    def __init__(self, size, rng, policy="random", eager=0.5, delay=0, sync=0.3,
                 max_steps=2_000_000, tag_ub=TAG_UB, strict_requests=True):
        self.size = size
        self.rng = rng
        self.policy = policy
        self.eager = eager
        self.delay = delay
        self.sync = sync
        self.max_steps = max_steps
        self.tag_ub = tag_ub
        self.strict_requests = strict_requests
        self.now = 0
        self.open_requests = 0
        self.stats = {"messages": 0, "bytes": 0, "collectives": 0, "rendezvous": 0,
                      "eager": 0, "steps": 0, "blocked": 0, "overtakes": 0}
        self.trace = []
        self.failure = None
        self._groups = {}
        self._main = threading.Semaphore(0)
        self._tasks = []
        self._aborting = False
        self._live_recv = []
        self._msgs = []
        self.prio = [rng.random() for _ in range(size)]
        self.world_group = self._new_group(list(range(size)))

    # ---------------------------------------------------------------- scheduling
    def _new_group(self, ranks):
        g = _Group(self, len(self._groups), ranks)
        self._groups[g.id] = g
        return g

    def comms(self):
        return [SimComm(self, self.world_group, r) for r in range(self.size)]

    def run(self, program):
        """program(comm, rank) on every rank -> list of results"""
        comms = self.comms()
        for r in range(self.size):
            t = _Task()
            t.rank = r
            t.sem = threading.Semaphore(0)
            t.pred = None
            t.desc = ""
            t.done = False
            t.result = None
            t.started = False
            t.thread = threading.Thread(
                target=self._thread, args=(t, program, comms[r]), daemon=True
            )
            self._tasks.append(t)
        for t in self._tasks:
            t.thread.start()
        try:
            self._loop()
        finally:
            self._aborting = True
            for t in self._tasks:
                if not t.done:
                    t.sem.release()
            for t in self._tasks:
                t.thread.join(30)
        if self.failure is not None:
            raise self.failure
        self._final_checks()
        return [t.result for t in self._tasks]

    def _thread(self, t, program, comm):
        t.sem.acquire()
        try:
            if not self._aborting:
                t.result = program(comm, t.rank)
        except _Abort:
            pass
        except BaseException as e:  # reported to the main thread with its traceback
            if self.failure is None and not self._aborting:
                e.sim_rank = t.rank
                self.failure = e
        finally:
            t.done = True
            self._main.release()

    def _loop(self):
        last = None
        while self.failure is None:
            runnable = []
            pending = False
            for t in self._tasks:
                if t.done:
                    continue
                pending = True
                if t.pred is None or t.pred():
                    runnable.append(t)
            if not pending:
                return
            if not runnable:
                later = [m.visible_at for m in self._msgs
                         if not m.matched and m.visible_at > self.now]
                if later:
                    self.now = min(later)
                    for g in self._groups.values():
                        g.progress()
                    continue
                waits = "; ".join(
                    f"rank {t.rank}: {t.desc}" for t in self._tasks if not t.done
                )
                self.failure = Violation(
                    f"deadlock: every unfinished rank is blocked [{waits[:1500]}]",
                    "deadlock",
                )
                return
            t = self._pick(runnable, last)
            last = t
            t.pred = None
            self.now += 1
            self.stats["steps"] += 1
            if self.stats["steps"] > self.max_steps:
                from .core import Inconclusive

                self.failure = Inconclusive("scheduler step limit")
                return
            t.sem.release()
            self._main.acquire()
            for g in self._groups.values():
                g.progress()

    def _pick(self, runnable, last):
        rng = self.rng
        p = self.policy
        if len(runnable) == 1:
            return runnable[0]
        if p == "sticky":  # one rank runs as far ahead as it can
            if last in runnable and rng.random() < 0.95:
                return last
            return rng.choice(runnable)
        if p == "priority":  # PCT-like: fixed priorities with rare changes
            if rng.random() < 0.02:
                t = rng.choice(runnable)
                self.prio[t.rank] = rng.random()
            return max(runnable, key=lambda t: self.prio[t.rank])
        if p == "laggard":  # one rank is starved
            lag = int(self.prio[0] * self.size) % self.size
            others = [t for t in runnable if t.rank != lag]
            return rng.choice(others or runnable)
        if p == "roundrobin":
            nxt = [t for t in runnable if last is None or t.rank > last.rank]
            return (nxt or runnable)[0]
        return rng.choice(runnable)

    def _task(self, rank):
        return self._tasks[rank]

    def _switch(self, t):
        self._main.release()
        t.sem.acquire()
        if self._aborting:
            raise _Abort()

    def step(self, rank, op):
        """a scheduling point"""
        self.trace.append((rank, op))
        t = self._tasks[rank]
        t.pred = None
        self._switch(t)

    def block(self, rank, pred, desc):
        t = self._tasks[rank]
        if pred():
            return
        self.stats["blocked"] += 1
        while not pred():
            t.pred = pred
            t.desc = desc
            self._switch(t)
        t.pred = None

    def fail(self, message, mechanism):
        raise Violation(message, mechanism)

    # ---------------------------------------------------------------- final state
    def _final_checks(self):
        for g in self._groups.values():
            for dst, queue in g.unexpected.items():
                if queue:
                    m = queue[0]
                    raise Violation(
                        f"{len(queue)} message(s) to rank {dst} never received, first: "
                        f"from {m.src} tag {m.tag} {m.nbytes} bytes", "message-leak")
            for dst, posted in g.posted.items():
                if posted:
                    raise Violation(f"posted receive on rank {dst} never matched",
                                    "recv-leak")
            for c in g.collectives:
                if len(c["calls"]) != g.size:
                    raise Violation(
                        f"collective {c['op']} was called by ranks {sorted(c['calls'])} "
                        f"only", "collective-mismatch")
        if self.strict_requests and self.open_requests:
            raise Violation(
                f"{self.open_requests} requests were never completed with wait()",
                "request-leak")

    def interleaving(self):
        return digest(",".join(f"{r}{o[0]}" for r, o in self.trace))


class _Task:
    pass


class _Group:
    def __init__(self, world, id, ranks):
        self.world = world
        self.id = id
        self.ranks = ranks  # world ranks, by group rank
        self.size = len(ranks)
        self.unexpected = {i: [] for i in range(self.size)}
        self.posted = {i: [] for i in range(self.size)}
        self.collectives = []
        self.calls = [0] * self.size

    # point to point ------------------------------------------------------------
    def isend(self, src, buf, dst, tag):
        w = self.world
        dst = int(dst)
        if not 0 <= dst < self.size:
            raise ValueError(f"MPI_ERR_RANK: invalid rank {dst}")
        if not 0 <= int(tag) <= w.tag_ub:
            w.fail(f"rank {src} sends with tag {tag}, outside the range 0..{w.tag_ub} "
                   "which every MPI implementation supports", "tag-range")
        view, dtype = raw_view(buf)
        m = _Msg()
        m.src, m.dst, m.tag = src, dst, int(tag)
        m.view, m.dtype, m.nbytes, m.ref = view, dtype, view.nbytes, buf
        m.eager = w.rng.random() < w.eager
        m.data = view.copy()
        m.matched = m.done = m.waited = False
        m.visible_at = w.now + (w.rng.randrange(w.delay + 1) if w.delay else 0)
        for prev in self.unexpected[dst]:
            if prev.src == src and prev.visible_at > m.visible_at:
                m.visible_at = prev.visible_at
        w.stats["messages"] += 1
        w.stats["bytes"] += m.nbytes
        w.stats["eager" if m.eager else "rendezvous"] += 1
        m.n = w.stats["messages"]
        self.unexpected[dst].append(m)
        w._msgs.append(m)
        self.progress(dst)
        return m

    def irecv(self, rank, buf, src, tag):
        w = self.world
        view, dtype = raw_view(buf, writable=True)
        src = int(src)
        if src != ANY and not 0 <= src < self.size:
            raise ValueError(f"MPI_ERR_RANK: invalid rank {src}")
        r = _Recv()
        r.src, r.tag, r.view, r.dtype, r.rank, r.ref = src, int(tag), view, dtype, rank, buf
        r.msg, r.done = None, False
        for other in self.posted[rank]:
            if view.nbytes and np.shares_memory(other.view, view):
                w.fail(f"rank {rank} posts a receive into memory of another pending "
                       "receive", "recv-overlap")
        view[...] = POISON
        self.posted[rank].append(r)
        self.progress(rank)
        return r

    def progress(self, only=None):
        w = self.world
        for dst in (self.posted if only is None else (only,)):
            if not self.posted[dst] or not self.unexpected[dst]:
                continue
            for r in list(self.posted[dst]):
                for m in self.unexpected[dst]:
                    if r.src not in (ANY, m.src) or r.tag not in (ANY, m.tag):
                        continue
                    # MPI keeps order per source: an earlier matching message must go
                    # first, so an invisible one hides later ones from the same source
                    if m.visible_at > w.now:
                        break
                    self._transfer(m, r)
                    break

    def _transfer(self, m, r):
        w = self.world
        if self.unexpected[m.dst][0] is not m:
            w.stats["overtakes"] += 1
        self.unexpected[m.dst].remove(m)
        self.posted[m.dst].remove(r)
        m.matched = True
        if m in w._msgs:
            w._msgs.remove(m)
        if r.view.nbytes < m.nbytes:
            w.failure = Violation(
                f"rank {m.dst} receives {m.nbytes} bytes from rank {m.src} (tag {m.tag}) "
                f"into a buffer of {r.view.nbytes} bytes", "truncation")
            return
        if r.dtype != m.dtype:
            w.failure = Violation(
                f"rank {m.dst} receives {m.dtype} data from rank {m.src} as {r.dtype}",
                "dtype-mismatch")
            return
        if not m.eager and not np.array_equal(m.data, m.view):
            w.failure = Violation(
                f"send buffer of rank {m.src} (to {m.dst}, tag {m.tag}) was modified "
                "between the start of the send and its completion", "send-buffer-race")
            return
        r.view[:m.nbytes] = m.data
        m.done = r.done = True
        r.msg = m

    # collectives ---------------------------------------------------------------
    def enter(self, rank, op, root):
        k = self.calls[rank]
        self.calls[rank] += 1
        w = self.world
        if k == len(self.collectives):
            self.collectives.append({
                "op": op, "root": root, "calls": {}, "first": rank,
                "sync": w.rng.random() < w.sync, "out": None,
            })
            w.stats["collectives"] += 1
        c = self.collectives[k]
        if c["op"] != op or c["root"] != root:
            w.fail(
                f"collective mismatch on a communicator of {self.size}: call {k} is "
                f"{c['op']}(root={c['root']}) on rank {c['first']} but "
                f"{op}(root={root}) on rank {rank}", "collective-mismatch")
        return c

    def complete(self, c):
        return len(c["calls"]) == self.size


class SimComm:
    """mpi4py-like communicator of one rank"""

    def __init__(self, world, group, rank):
        self._w, self._g, self._r = world, group, rank
        self._wr = group.ranks[rank]

    def __repr__(self):
        return f"SimComm(rank={self._r}, size={self._g.size})"

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self._g.size

    rank = property(Get_rank)
    size = property(Get_size)

    def _step(self, op):
        self._w.step(self._wr, op)

    def _block(self, pred, desc):
        self._w.block(self._wr, pred, desc)

    # point to point
    def Isend(self, buf, dest, tag=0):
        self._step("Isend")
        m = self._g.isend(self._r, buf, dest, tag)
        return Request(self._w, self._wr, lambda: m.eager or m.done, lambda: None,
                       f"wait for send to {dest} tag {tag}")

    def Issend(self, buf, dest, tag=0):
        self._step("Isend")
        m = self._g.isend(self._r, buf, dest, tag)
        m.eager = False
        return Request(self._w, self._wr, lambda: m.done, lambda: None,
                       f"wait for ssend to {dest} tag {tag}")

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).wait()

    def Ssend(self, buf, dest, tag=0):
        self.Issend(buf, dest, tag).wait()

    def Irecv(self, buf, source=ANY, tag=ANY):
        self._step("Jrecv")
        r = self._g.irecv(self._r, buf, source, tag)
        return Request(self._w, self._wr, lambda: r.done, lambda: None,
                       f"wait for receive from {source} tag {tag}")

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        self._step("Recv")
        r = self._g.irecv(self._r, buf, source, tag)
        self._block(lambda: r.done, f"Recv from {source} tag {tag}")

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY,
                 status=None):
        a = self.Isend(sendbuf, dest, sendtag)
        b = self.Irecv(recvbuf, source, recvtag)
        b.wait()
        a.wait()

    # collectives
    def _root_to_all(self, op, root, payload, pick):
        g = self._g
        root = int(root)
        self._step(op)
        c = g.enter(self._r, op, root)
        if self._r == root:
            c["out"] = (payload(),)
        c["calls"][self._r] = True
        if self._r != root:
            self._block(lambda: c["out"] is not None, f"{op} root={root}")
        if c["sync"]:
            self._block(lambda: g.complete(c), f"{op} (synchronising)")
        return pick(c["out"][0])

    def bcast(self, obj=None, root=0):
        if self._r == root:
            data = pickle.dumps(obj)
            out = self._root_to_all("bcast", root, lambda: data, lambda d: d)
            return obj if out is data else pickle.loads(out)
        return pickle.loads(
            self._root_to_all("bcast", root, None, lambda d: d))

    def scatter(self, sendobj=None, root=0):
        def payload():
            if len(sendobj) != self._g.size:
                raise ValueError("scatter: wrong number of objects")
            return [pickle.dumps(o) for o in sendobj]

        return pickle.loads(
            self._root_to_all("scatter", root, payload, lambda d: d[self._r]))

    def Bcast(self, buf, root=0):
        view, dtype = raw_view(buf, writable=self._r != root)

        def pick(d):
            data, dt = d
            self._same(data.nbytes, dt, view.nbytes, dtype, "Bcast")
            if self._r != root:
                view[...] = data

        self._root_to_all("Bcast", root, lambda: (view.copy(), dtype), pick)

    def _same(self, n1, d1, n2, d2, op):
        if n1 != n2:
            self._w.fail(f"{op}: rank {self._r} has a part of {n2} bytes where the root "
                         f"has {n1} bytes", "size-mismatch")
        if d1 != d2:
            self._w.fail(f"{op}: rank {self._r} uses {d2} where the root uses {d1}",
                         "dtype-mismatch")

    def Scatter(self, sendbuf, recvbuf, root=0):
        g = self._g
        rview, rdtype = raw_view(recvbuf, writable=True)

        def payload():
            sview, sdtype = raw_view(sendbuf)
            if sview.nbytes % g.size:
                self._w.fail("Scatter: send buffer is not a multiple of the number of "
                             "ranks", "size-mismatch")
            if rview.nbytes and np.shares_memory(sview, rview):
                self._w.fail("Scatter: send and receive buffers overlap", "alias")
            return sview.copy(), sdtype

        def pick(d):
            data, dt = d
            n = data.nbytes // g.size
            self._same(n, dt, rview.nbytes, rdtype, "Scatter")
            rview[...] = data[self._r * n:(self._r + 1) * n]

        rview[...] = POISON if not (
            self._r == root and sendbuf is not None
            and np.shares_memory(raw_view(sendbuf)[0], rview)) else rview
        self._root_to_all("Scatter", root, payload, pick)

    def _all_to_root(self, op, root, mine, finish):
        g = self._g
        root = int(root)
        self._step(op)
        c = g.enter(self._r, op, root)
        c["calls"][self._r] = mine
        if self._r == root or c["sync"]:
            self._block(lambda: g.complete(c), f"{op} root={root}")
        if self._r == root:
            return finish([c["calls"][i] for i in range(g.size)])

    def gather(self, sendobj, root=0):
        return self._all_to_root(
            "gather", root, pickle.dumps(sendobj), lambda p: [pickle.loads(x) for x in p])

    def Gather(self, sendbuf, recvbuf, root=0):
        g = self._g
        sview, sdtype = raw_view(sendbuf)
        if self._r == root:
            rview, rdtype = raw_view(recvbuf, writable=True)
            if sview.nbytes and np.shares_memory(sview, rview):
                self._w.fail("Gather: send and receive buffers overlap", "alias")
            rview[...] = POISON

        def finish(parts):
            n = rview.nbytes // g.size
            for i, (data, dt) in enumerate(parts):
                self._same(n, rdtype, data.nbytes, dt, f"Gather part {i}")
                rview[i * n:(i + 1) * n] = data

        self._all_to_root("Gather", root, (sview.copy(), sdtype), finish)

    def _all(self, op, mine):
        g = self._g
        self._step(op)
        c = g.enter(self._r, op, 0)
        c["calls"][self._r] = mine
        self._block(lambda: g.complete(c), op)
        return [c["calls"][i] for i in range(g.size)]

    def allgather(self, sendobj):
        return [pickle.loads(x) for x in self._all("allgather", pickle.dumps(sendobj))]

    def barrier(self):
        self._all("barrier", None)

    Barrier = barrier

    def Split(self, color=0, key=0):
        g = self._g
        self._step("Split")
        c = g.enter(self._r, "Split", 0)
        c["calls"][self._r] = (int(color), int(key))
        self._block(lambda: g.complete(c), "Split")
        if c["out"] is None:
            c["out"] = {}
            for col in sorted({v[0] for v in c["calls"].values()}):
                members = sorted(
                    (v[1], r) for r, v in c["calls"].items() if v[0] == col)
                c["out"][col] = (
                    [r for _, r in members],
                    self._w._new_group([g.ranks[r] for _, r in members]))
        members, group = c["out"][int(color)]
        return SimComm(self._w, group, members.index(self._r))

    def Dup(self):
        return self.Split(0, self._r)


POLICIES = ("random", "sticky", "priority", "laggard", "roundrobin")


def random_world(size, rng, **kw):
    """a world with a randomly chosen adversary"""
    opts = dict(
        policy=rng.choice(POLICIES),
        eager=rng.choice([0.0, 0.0, 0.5, 1.0]),
        delay=rng.choice([0, 0, 3, 30, 300]),
        sync=rng.choice([0.0, 0.5, 1.0]),
    )
    opts.update(kw)
    return World(size, rng, **opts)


def observe(mon, world):
    for k, v in world.stats.items():
        mon.count("mpi_" + k, v)
    mon.seen("interleavings", world.interleaving())
    mon.count("executions")
