"""C21: capture_stream takes exactly what is written inside, and restores the stream."""
import os
import random
import sys
import tempfile
import threading

from ..core import Violation, check

ID = "C21"
LEVEL = "exploration"
RULE = (
    "A case is a random program of writes before, inside, between and after 1-5 "
    "capture_stream blocks (nested, left by exceptions, on one of several streams) through "
    "the Python stream, the file descriptor and child processes, on binary and text files "
    "and pipes with any buffering. Afterwards each captured block and the stream's own "
    "destination are compared with what a perfect capture would hold, and file descriptors "
    "are counted. Non-trivial: something was captured and something went to the stream.")
COUNTS = {"quick": 2500, "thorough": 50000}
REQUIRED = {"captures": 5000, "captured_bytes": 100000, "left_by_exception": 1000,
            "nested": 500, "closed_standard_streams": 100, "fd_writes": 4000, "child_writes": 200, "text_streams": 700,
            "unflushed_text": 1500, "program_writes": 100, "bytes_which_are_not_text": 1500,
            "large_writes": 40, "huge_captures": 5}
ASSUMPTIONS = [
    "writers in other processes and through the descriptor are finished when a block is left",
    "text still buffered in the stream counts for the block in which it was written",
]


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), kind=rng.choice(
        ["file", "file", "unbuffered", "text", "text-line", "pipe", "two"]))


def directed(tier):
    return [dict(seed=s, kind=k) for s in range(4)
            for k in ("file", "unbuffered", "text", "text-line", "pipe", "two")] + [
        dict(seed=s, kind=k, huge=h) for s, (k, h) in enumerate(
            [("file", 3 << 20), ("unbuffered", 20 << 20), ("text", 5 << 20),
             ("pipe", 3 << 20), ("file", 40 << 20)])]


class Target:
    """a stream and what should end up in it"""

    def __init__(self, kind, rng, tmp):
        self.kind, self.expect, self.reader = kind, b"", None
        self.stack = []
        self.inheritable = False  # the descriptor, by programs which are started
        self.text = kind.startswith("text")
        if kind == "pipe":
            r, w = os.pipe()
            self.got = []
            self.reader = threading.Thread(target=self.drain, args=(r,), daemon=True)
            self.reader.start()
            self.stream = os.fdopen(w, "wb", rng.choice([0, 50, 4096]))
        else:
            self.path = tempfile.mktemp(dir=tmp)
            if self.text:
                self.stream = open(self.path, "w", buffering=1 if kind == "text-line" else -1,
                                   encoding="utf-8", newline="")
            else:
                self.stream = open(self.path, "wb",
                                   buffering=0 if kind == "unbuffered" else rng.choice(
                                       [-1, 64, 100000]))

    def drain(self, r):
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            self.got.append(b)
        os.close(r)

    def put(self, data):
        if self.stack:
            self.stack[-1].append(data)
        else:
            self.expect += data

    def content(self):
        self.stream.close()
        if self.reader:
            self.reader.join(20)
            return b"".join(self.got)
        with open(self.path, "rb") as f:
            return f.read()


def write(t, rng, mon, counter):
    counter[0] += 1
    s = f"<{counter[0]}:" + rng.choice(["x", "é", "line\n", ""]) * rng.choice([1, 3, 40, 2000])
    s += rng.choice([">", ">\n"])
    if len(s) > 500 and rng.random() < 0.9:
        s = s[:30] + ">"
    if rng.random() < 0.004:
        s = f"<{counter[0]}:" + "0123456789abcdef" * rng.choice([4097, 20000]) + ">"
        mon.count("large_writes")
    data = s.encode()
    if not t.text and rng.random() < 0.2:
        data = f"<{counter[0]}:".encode() + bytes(rng.choice(
            [[0, 255, 13, 10], [0xe9, 0x80], range(256), [13], [10, 13]])) + b">"
        mon.count("bytes_which_are_not_text")
    u = rng.random()
    if u < 0.5:
        t.stream.write(s if t.text else data)
        t.put(data)
        if rng.random() < 0.3:
            t.stream.flush()
        else:
            mon.count("unflushed_text")
        return
    t.stream.flush()
    if u < 0.95:
        while data:
            n = os.write(t.stream.fileno(), data)
            t.put(data[:n])
            data = data[n:]
        mon.count("fd_writes")
    elif u < 0.96:
        # another program
        path = os.path.join(tempfile.tempdir, "..", "data")
        with open(path, "wb") as f:
            f.write(data)
        os.set_inheritable(t.stream.fileno(), True) if not t.inheritable else None
        t.inheritable = True
        pid = os.posix_spawn("/bin/bash", ["bash", "-c", f"/bin/cat '{path}' "
                                           f">&{t.stream.fileno()}"], os.environ)
        os.waitpid(pid, 0)
        t.put(data)
        mon.count("program_writes")
    else:
        pid = os.fork()
        if pid == 0:
            try:
                os.write(t.stream.fileno(), data)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        t.put(data)
        mon.count("child_writes")


def block(util, targets, rng, mon, counter, depth, kept):
    t = rng.choice(targets)
    how = rng.choice(["normal", "normal", "exception", "halt", "empty"])
    parts = []
    raised = None
    try:
        with util.capture_stream(t.stream) as out:
            t.stack.append(parts)
            try:
                for _ in range(0 if how == "empty" else rng.randint(1, 5)):
                    if depth < 2 and rng.random() < 0.15:
                        mon.count("nested")
                        block(util, targets, rng, mon, counter, depth + 1, kept)
                    else:
                        write(rng.choice(targets), rng, mon, counter)
                if how == "exception":
                    raise Boom()
                if how == "halt":
                    raise Halt()
            finally:
                t.stack.pop()
    except (Boom, Halt) as e:
        raised = e
    check((raised is not None) == (how in ("exception", "halt")), "an exception was swallowed",
          "swallowed")
    mon.count("left_by_exception", raised is not None)
    mon.count("captures")
    got, want = out.getvalue(), b"".join(parts)
    check(got == want, lambda: f"captured {got[:200]!r} ({len(got)} bytes), expected "
          f"{want[:200]!r} ({len(want)} bytes) from a {t.kind} stream", "wrong-capture")
    mon.count("captured_bytes", len(want))
    kept.append((out, want))


def run(p, mon):
    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    old = tempfile.tempdir
    try:
        with tempfile.TemporaryDirectory(prefix="vf-cap-") as tmp:
            tempfile.tempdir = os.path.join(tmp, "temporary")
            os.mkdir(tempfile.tempdir)
            return session(util, p, rng, mon, tmp)
    finally:
        tempfile.tempdir = old


def session(util, p, rng, mon, tmp):
    kinds = [p["kind"]] if p["kind"] != "two" else ["file", "text"]
    targets = [Target(k, rng, tmp) for k in kinds]
    mon.count("text_streams", any(t.text for t in targets))
    ids = [(os.fstat(t.stream.fileno()).st_ino, t.stream.fileno()) for t in targets]
    before = len(os.listdir("/proc/self/fd"))
    counter, kept = [0], []
    if p.get("huge"):
        huge(util, targets[0], rng, mon, p["huge"])
    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.randint(0, 2)):
            write(rng.choice(targets), rng, mon, counter)
        block(util, targets, rng, mon, counter, 0, kept)
        for t, (ino, fd) in zip(targets, ids):
            check(not t.inheritable or os.get_inheritable(fd),
                  "programs do not inherit the stream after the block any more",
                  "not-restored")
            check(t.stream.fileno() == fd and os.fstat(fd).st_ino == ino,
                  "the stream was not restored after the block", "not-restored")
    for _ in range(rng.randint(0, 3)):
        write(rng.choice(targets), rng, mon, counter)
    for out, want in kept:
        check(out.getvalue() == want, "what a block captured changed after it was left",
              "wrong-capture")
    after = len(os.listdir("/proc/self/fd"))
    check(after == before, f"{after - before} file descriptors leaked", "fd-leak")
    check(not os.listdir(tempfile.tempdir), lambda: "temporary files left: "
          f"{os.listdir(tempfile.tempdir)}", "file-leak")
    total = 0
    for t in targets:
        got = t.content()
        check(got == t.expect, lambda: f"a {t.kind} stream holds {got[:300]!r} "
              f"({len(got)} bytes), expected {t.expect[:300]!r} ({len(t.expect)} bytes)",
              "wrong-stream")
        total += len(got)
    if rng.random() < 0.1:
        low_descriptors(util, rng, mon, tmp)
    return p if total else None


def huge(util, t, rng, mon, size):
    """more than a pipe, a buffer or a megabyte holds"""
    unit = "é\n" if t.text else bytes(range(256))
    n = size // len(unit.encode() if t.text else unit)
    with util.capture_stream(t.stream) as out:
        for _ in range(4):
            t.stream.write(unit * (n // 4))
    want = (unit.encode() if t.text else unit) * (n // 4 * 4)
    got = out.getvalue()
    check(got == want, lambda: f"captured {len(got)} bytes of {len(want)} from a {t.kind} "
          "stream", "wrong-capture")
    mon.count("huge_captures")


def low_descriptors(util, rng, mon, tmp):
    """as in a process whose standard streams are closed"""
    path = os.path.join(tmp, "low")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        said = b"failed"
        try:
            stream = open(path, "wb")
            for fd in (0, 1, 2)[:rng.randint(1, 3)]:
                os.close(fd)
            n = len(os.listdir("/proc/self/fd"))
            stream.write(b"before")
            with util.capture_stream(stream) as out:
                stream.write(b"inside")
            stream.write(b"after")
            stream.close()
            with open(path, "rb") as f:
                ok = f.read() == b"beforeafter" and out.getvalue() == b"inside"
            said = b"lost" if not ok else b"leak" if len(
                os.listdir("/proc/self/fd")) != n - 1 else b"ok"
        finally:
            os.write(w, said)
            os._exit(0)
    os.close(w)
    said = os.read(r, 100)
    os.close(r)
    os.waitpid(pid, 0)
    mon.count("closed_standard_streams")
    check(said != b"leak", "with closed standard streams file descriptors leaked", "fd-leak")
    check(said == b"ok", f"with closed standard streams the capture is {said!r}",
          "wrong-capture")
