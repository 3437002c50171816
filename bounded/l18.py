"""L18 - executable contracts: histories of writes, flushes and closes against a reference file."""
import io
import os
import struct
import sys
import time

from bounded.harness import require


class File:
    """A file that records what it is given; may refuse operations; may keep references."""

    def __init__(self, refuse=()):
        self.got, self.refuse, self.ops = [], set(refuse), 0
        self.flushed_len, self.shut = 0, None

    def _op(self):
        self.ops += 1
        if self.ops in self.refuse:
            raise OSError(28, "no space left")

    @property
    def content(self):
        return b"".join(bytes(g) for g in self.got)

    def write(self, b):
        assert self.shut is None, "write after close"
        self._op()
        self.got.append(b if isinstance(b, bytes) else memoryview(b).tobytes() if not isinstance(b, bytearray) else b)
        return len(b)

    def flush(self):
        self._op()
        self.flushed_len = len(self.content)

    def close(self):
        self.shut = self.content

    @property
    def closed(self):
        return self.shut is not None


def run(H):
    from utils import tb_writer
    rng = H.rng
    Shim = tb_writer._BufferedFileLike

    def history(cap, ops, refuse=(), reuse=False):
        def f():
            inner = File(refuse)
            sh = Shim(inner) if cap is None else Shim(inner, cap)
            want, arena = b"", bytearray()
            refused = False
            try:
                for k, (op, data) in enumerate(ops):
                    try:
                        if op == "w":
                            given = data
                            if reuse:
                                arena[:] = data
                                given = arena
                            before = want
                            want = want + data
                            n = sh.write(given)
                            require(n == len(data), "write reports another length", at=k, got=n)
                            if reuse:
                                arena[:] = b"\xee" * len(arena)
                        elif op == "f":
                            sh.flush()
                            require(inner.content == want, "after a flush the file does not hold everything written",
                                    at=k, file=inner.content, want=want)
                            require(inner.flushed_len == len(want), "the file was not flushed after the last byte", at=k)
                        elif op == "c":
                            sh.close()
                            require(inner.shut == want, "after close the file does not hold everything written",
                                    file=inner.shut, want=want)
                            require(sh.closed is True, "closed is not reported")
                    except OSError:
                        refused = True
                        if op == "c":
                            require(inner.shut is not None, "a failing close leaves the file open")
                            require(want.startswith(inner.shut), "the failing close left other bytes",
                                    file=inner.shut, want=want)
                            return
                        if op == "w" and inner.content + bytes(sh._buf if hasattr(sh, "_buf") else b"") == before:
                            want = before
                    require(want.startswith(inner.content), "the file is not a prefix of what was written", at=k,
                            file=inner.content, want=want)
                if not refused:
                    require(inner.closed is (ops[-1][0] == "c"), "the file is open or closed at the wrong time")
            finally:
                pass
        H.case("history", f, capacity=cap, ops=[(o, len(d)) for o, d in ops], data=[d for _, d in ops],
               refused=sorted(refuse), reused_buffer=reuse)

    def rnd(n):
        return bytes(rng.randrange(256) for _ in range(n))

    def ops_of(sizes, pflush, close=True):
        out = []
        for s in sizes:
            out.append(("w", rnd(s)))
            if rng.random() < pflush:
                out.append(("f", b""))
        if close:
            out.append(("c", b""))
        else:
            out.append(("f", b""))
        return out
    # every short pattern of small, boundary and oversized writes
    import itertools
    H.bound("patterns", "all sequences of up to 4 operations from {write of 0, 1, cap-1, cap, cap+1, 3*cap bytes, flush} "
                        "then close, capacities 1, 2, 4")
    for cap in (1, 2, 4):
        kinds = sorted({0, 1, cap - 1, cap, cap + 1, 3 * cap}) + ["f"]
        for n in range(0, H.scale(4, 5)):
            for p in itertools.product(kinds, repeat=n):
                history(cap, [("f", b"") if k == "f" else ("w", rnd(k)) for k in p] + [("c", b"")])
    H.bound("random", "random histories of up to 60 writes, capacities 0 to 5000 and the default, buffers reused by the "
                      "caller, refused file operations")
    for _ in range(H.scale(400, 6000)):
        cap = rng.choice([0, 1, 3, 7, 16, 100, 5000])
        sizes = [rng.choice([0, 1, rng.randrange(0, 2 * cap + 4), cap, rng.randrange(0, 40)]) for _ in range(rng.randrange(1, 60))]
        ops = ops_of(sizes, rng.choice([0, 0.1, 0.5]), rng.random() < 0.8)
        refuse = rng.sample(range(1, 40), rng.randrange(0, 4)) if rng.random() < 0.4 else ()
        history(cap, ops, refuse, rng.random() < 0.5)
    default = tb_writer._DEFAULT_BUFFER_CAPACITY
    for sizes in ([default - 1, 1, 5], [default], [10, default + 1, 3], [1, 3 * default, 1], [default // 2] * 5):
        history(None, ops_of(sizes, 0.2), (), False)

    # a real file
    def real():
        p = os.path.join(H.scratch, "plain.bin")
        want = b""
        with open(p, "wb") as f:
            sh = Shim(f, 64)
            for k in range(300):
                d = rnd(rng.randrange(0, 200))
                sh.write(d)
                want += d
                if k % 50 == 7:
                    sh.flush()
                    require(open(p, "rb").read() == want, "after a flush the file on disk differs", at=k)
            sh.close()
        require(open(p, "rb").read() == want, "after close the file on disk differs")
    H.case("real file", real)

    # the whole event writer: the same records, the same framing, as the stock writer
    from torch.utils.tensorboard import SummaryWriter
    from tensorboard.summary.writer import event_file_writer as efw
    import tensorboard.summary.writer.record_writer as rw

    def frames(path):
        b, out, i = open(path, "rb").read(), [], 0
        while i < len(b):
            require(i + 12 <= len(b), "the event file ends inside a record header", at=i, size=len(b))
            n, = struct.unpack_from("<Q", b, i)
            require(i + 16 + n <= len(b), "the event file ends inside a record", at=i, size=len(b))
            body = b[i + 12:i + 12 + n]
            require(struct.unpack_from("<I", b, i + 8)[0] == rw.masked_crc32c(b[i:i + 8]), "a record length is damaged", at=i)
            require(struct.unpack_from("<I", b, i + 12 + n)[0] == rw.masked_crc32c(body), "a record is damaged", at=i)
            out.append(body)
            i += 16 + n
        return out

    def events(path):
        from tensorboard.compat.proto.event_pb2 import Event
        out = []
        for f in frames(path):
            e = Event.FromString(f)
            for v in e.summary.value:
                out.append((e.step, v.tag, v.simple_value))
        return out

    def only(d):
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        require(len(fs) == 1, "more than one event file", files=fs)
        return fs[0]

    def writer_case(n, capacity, flushes):
        def f():
            d = os.path.join(H.scratch, f"tb{n}_{capacity}_{len(flushes)}")
            wr = tb_writer.create_summary_writer(d) if capacity is None else tb_writer.buffer_tensorboard_writer(
                SummaryWriter(d), capacity)
            shim = wr.file_writer.event_writer._async_writer._writer._writer
            require(isinstance(shim, Shim), "the event writer is not buffered", got=type(shim).__name__)
            want = []
            for k in range(n):
                tag, v = f"t/{k % 7}" + "x" * (k % 5 * 30), float(k) / 2
                wr.add_scalar(tag, v, k)
                want.append((k, tag, v))
                if k in flushes:
                    wr.flush()
                    require(events(only(d)) == want, "after a flush the event file misses or repeats events", at=k)
            wr.close()
            require(events(only(d)) == want, "after close the event file misses or repeats events")
        H.case("event writer", f, events=n, capacity=capacity, flushes=sorted(flushes))
    writer_case(0, None, ())
    writer_case(5, None, {0, 4})
    for cap in (1, 64, 1000, 4096):
        writer_case(200, cap, {3, 99, 150})
    writer_case(H.scale(600, 6000), None, {10, 500})

    def broken():
        import types
        import logging
        logging.disable(logging.WARNING)
        try:
            for wr in (types.SimpleNamespace(), types.SimpleNamespace(file_writer=None), object()):
                require(tb_writer.buffer_tensorboard_writer(wr) is wr, "an unknown writer is not returned unchanged")
        finally:
            logging.disable(logging.NOTSET)
    H.case("unknown internals", broken)
