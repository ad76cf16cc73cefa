"""Ranks as threads with an in-memory MPI, for demonstrations."""
import queue
import threading


class World:
    def __init__(self, size, lazy=False):
        self.size, self.lazy = size, lazy
        self.lock = threading.Condition()
        self.mail, self.boards = {}, {}
        self.failed = None

    def wait(self, ready):
        with self.lock:
            if not self.lock.wait_for(lambda: self.failed or ready(), timeout=25):
                self.failed = self.failed or RuntimeError("deadlock")
                self.lock.notify_all()
            if self.failed:
                raise RuntimeError(f"stopped: {self.failed!r}")


class Request:
    def __init__(self, done):
        self._done = done

    def wait(self):
        return self._done()


class Comm:
    def __init__(self, world, rank, members=None, name="w"):
        self.w, self.me, self.name = world, rank, name
        self.members = members or list(range(world.size))
        self.n = 0

    def Get_rank(self):
        return self.members.index(self.me)

    def Get_size(self):
        return len(self.members)

    def _put(self, array, dest, tag):
        with self.w.lock:
            key = (self.name, self.me, self.members[dest], tag)
            msg = [array if self.w.lazy else array.copy(), False]
            self.w.mail.setdefault(key, []).append(msg)
            self.w.lock.notify_all()
        return msg

    def Isend(self, array, dest, tag=0, **kw):
        msg = self._put(array, dest, tag)
        return Request(lambda: self.w.wait(lambda: msg[1]))

    def Send(self, array, dest, tag=0, **kw):
        msg = self._put(array, dest, tag)
        self.w.wait(lambda: msg[1])

    def Recv(self, array, source, tag=0, **kw):
        key = (self.name, self.members[source], self.me, tag)
        self.w.wait(lambda: self.w.mail.get(key))
        with self.w.lock:
            msg = self.w.mail[key].pop(0)
            data = msg[0].reshape(-1).view("u1")
            out = array.reshape(-1).view("u1")
            if data.size > out.size:
                raise RuntimeError("message truncated")
            out[: data.size] = data
            msg[1] = True
            self.w.lock.notify_all()

    def _collect(self, kind, value):
        self.n += 1
        key = (self.name, self.n)
        with self.w.lock:
            board = self.w.boards.setdefault(key, {})
            board[self.me] = (kind, value)
            self.w.lock.notify_all()
        self.w.wait(lambda: len(board) == len(self.members))
        kinds = {k for k, _ in board.values()}
        if len(kinds) > 1:
            raise RuntimeError(f"ranks are in different collective calls: {kinds}")
        return [board[m][1] for m in self.members]

    def bcast(self, value, root=0):
        import pickle
        return pickle.loads(pickle.dumps(self._collect("bcast", value)[root]))

    def barrier(self):
        self._collect("barrier", None)

    Barrier = barrier

    def Scatter(self, send, recv, root=0, **kw):
        data = self._collect("Scatter", send)[root][self.Get_rank()]
        recv.reshape(-1).view("u1")[:] = data.reshape(-1).view("u1")
        self._collect("end", None)

    def Gather(self, send, recv, root=0, **kw):
        parts = self._collect("Gather", send.copy())
        if self.Get_rank() == root:
            for out, part in zip(recv, parts):
                out.reshape(-1).view("u1")[:] = part.reshape(-1).view("u1")

    def Split(self, color, key):
        colors = self._collect("Split", color)
        members = [m for m, c in zip(self.members, colors) if c == color]
        return Comm(self.w, self.me, members, f"{self.name}/{self.n}.{color}")


def run(size, program, lazy=False, order=None):
    """program(comm) on every rank; returns the results, raises the first error"""
    world = World(size, lazy)
    results, errors = [None] * size, queue.Queue()

    def body(rank):
        try:
            results[rank] = program(Comm(world, rank))
        except BaseException as e:
            errors.put(e)
            with world.lock:
                world.failed = world.failed or e
                world.lock.notify_all()

    threads = [threading.Thread(target=body, args=(r,), daemon=True) for r in order or range(size)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(60)
    if not errors.empty():
        raise errors.get()
    if world.failed:
        raise world.failed
    return results
