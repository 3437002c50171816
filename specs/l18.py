"""L18 - buffered event logging: class invariant `file ++ buffer == everything written`."""
import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymInt, INT, TInt
from pyvc.load import World

MOD = "utils.tb_writer"
BYTES = z3.SeqSort(z3.BitVecSort(8))
EMPTY = z3.Empty(BYTES)

TRUSTED = ["the inner file's write either appends exactly the bytes it is given or raises without writing any; "
           "its flush and close touch no content",
           "bytearray and bytes follow Python's sequence semantics (modelled by the solver's byte sequences)"]


class GBytes:
    """bytes of arbitrary content."""
    __pyvc_type__ = bytes
    __hash__ = None

    def __init__(self, t):
        self.t = t

    @classmethod
    def fresh(cls, hint="data"):
        return cls(ctx().fresh(BYTES, hint))

    def __pyvc_len__(self):
        return SymInt(z3.Length(self.t))

    def __len__(self):
        raise Unsupported("native len of ghost bytes")

    def __bool__(self):
        return ctx().decide(z3.Length(self.t) > 0)

    def __add__(self, o):
        return type(self)(z3.Concat(self.t, term(o)))

    def __radd__(self, o):
        return type(self)(z3.Concat(term(o), self.t))

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsupported("indexing ghost bytes")
        n = z3.Length(self.t)

        def at(v, d):
            if v is None:
                return d
            t = v.t if isinstance(v, SymInt) else z3.IntVal(v)
            t = z3.If(t < 0, n + t, t)
            return z3.If(t < 0, 0, z3.If(t > n, n, t))
        a, b = at(s.start, z3.IntVal(0)), at(s.stop, n)
        return type(self)(z3.SubSeq(self.t, a, z3.If(b > a, b - a, 0)))

    def __eq__(self, o):
        if isinstance(o, (GBytes, bytes, bytearray)):
            from pyvc.values import SymBool
            return SymBool(self.t == term(o))
        return NotImplemented


class GBuf(GBytes):
    """bytearray of arbitrary content."""
    __pyvc_type__ = bytearray

    def __iadd__(self, o):
        self.t = z3.Concat(self.t, term(o))
        return self

    extend = __iadd__

    def clear(self):
        self.t = EMPTY

    def copy(self):
        return GBuf(self.t)

    def __delitem__(self, s):
        if s == slice(None):
            self.t = EMPTY
            return
        if isinstance(s, slice) and s.start is None:
            self.t = self[slice(s.stop, None)].t
            return
        raise Unsupported("deleting inside a ghost buffer")

    def __setitem__(self, s, v):
        if s == slice(None):
            self.t = term(v)
            return
        raise Unsupported("writing inside a ghost buffer")


def term(x):
    if isinstance(x, GBytes):
        return x.t
    if isinstance(x, (bytes, bytearray)):
        if not x:
            return EMPTY
        u = [z3.Unit(z3.BitVecVal(b, 8)) for b in x]
        return u[0] if len(u) == 1 else z3.Concat(*u)
    raise Unsupported(f"not bytes: {type(x).__name__}")


class Fault(OSError):
    pass


class Inner:
    """The file below: content, and each operation may fail."""

    def __init__(self, faults):
        self.content, self.faults = ctx().fresh(BYTES, "file"), faults
        self.flushed = None
        self.closed_content = None
        self.nclose = 0
        self.writes = 0
        self.wrote = []
        self.mode = object()

    def _maybe(self):
        if self.faults and ctx().decide(ctx().fresh(z3.BoolSort(), "fault")):
            raise Fault()

    def write(self, b):
        if self.closed_content is not None:
            raise ValueError("write to closed file")
        self._maybe()
        self.writes += 1
        self.wrote.append(b)
        if isinstance(b, GBuf):
            # the live buffer is handed over: fine only if the file copies it at once
            b = GBytes(b.t)
        self.content = z3.Concat(self.content, term(b))
        return SymInt(z3.Length(term(b)))

    def flush(self):
        self._maybe()
        self.flushed = self.content

    def close(self):
        self.nclose += 1
        self.closed_content = self.content

    @property
    def closed(self):
        return self.closed_content is not None


def prove(S):
    w = World()
    m = w.module(MOD)
    m.bytearray = lambda *a: GBuf(term(a[0]) if a else EMPTY)
    m.bytes = lambda *a: GBytes(term(a[0]) if a else EMPTY)

    def make(faults):
        """An arbitrary reachable state: whatever invariant-satisfying split between file and buffer."""
        inner = Inner(faults)
        cap = INT.fresh("capacity")
        before = inner.content
        f = m._BufferedFileLike(inner, cap)
        if set(vars(f)) != {"_inner", "_buf", "_capacity"} or not isinstance(f._buf, GBuf):
            raise Unsupported("the buffering object keeps other state than file, buffer and capacity")
        return f, inner, before

    def full(f, inner):
        return z3.Concat(inner.content, f._buf.t)

    def arbitrary(faults=False):
        f, inner, _ = make(faults)
        f._buf.t = ctx().fresh(BYTES, "buffered")
        return f, inner, full(f, inner)

    def h_init():
        f, inner, before = make(False)
        S.prove("a new buffer holds nothing and writes nothing", z3.And(full(f, inner) == before, inner.content == before))
        S.prove("the file below is the one given", z3.BoolVal(f._inner is inner))
    S.run("_BufferedFileLike.__init__", h_init)

    def same_objects(f, inner):
        if set(vars(f)) != {"_inner", "_buf", "_capacity"} or not isinstance(f._buf, GBytes):
            raise Unsupported("the buffering object keeps other state than file, buffer and capacity")
        S.prove("the file below stays the same object", z3.BoolVal(f._inner is inner))
        S.prove("the buffer is not shared with the file", z3.BoolVal(all(b is not f._buf for b in inner.wrote)))

    def h_write():
        f, inner, all0 = arbitrary()
        data = GBytes.fresh()
        n = f.write(data)
        S.prove("write: file and buffer together hold everything written, in order",
                full(f, inner) == z3.Concat(all0, data.t))
        S.prove("write: reports the whole length", n.t == z3.Length(data.t))
        same_objects(f, inner)
    S.run("_BufferedFileLike.write", h_write)

    def h_write_fault():
        f, inner, all0 = arbitrary(True)
        data = GBytes.fresh()
        try:
            f.write(data)
        except Fault:
            S.prove("write: a refused file write neither loses nor repeats accepted bytes", z3.Or(
                full(f, inner) == z3.Concat(all0, data.t), full(f, inner) == all0))
            return
        S.prove("write under faults: everything written, in order", full(f, inner) == z3.Concat(all0, data.t))
    S.run("_BufferedFileLike.write (failing file)", h_write_fault)

    def h_flush():
        f, inner, all0 = arbitrary()
        f.flush()
        S.prove("flush: everything written is in the file", inner.content == all0)
        S.prove("flush: nothing stays behind", f._buf.t == EMPTY)
        S.prove("flush: the file itself is flushed after the last byte",
                inner.flushed == all0 if inner.flushed is not None else z3.BoolVal(False))
        same_objects(f, inner)
    S.run("_BufferedFileLike.flush", h_flush)

    def h_flush_fault():
        f, inner, all0 = arbitrary(True)
        try:
            f.flush()
        except Fault:
            S.prove("flush: a refused file write neither loses nor repeats bytes", full(f, inner) == all0)
            return
        S.prove("flush under faults: everything is in the file", inner.content == all0)
    S.run("_BufferedFileLike.flush (failing file)", h_flush_fault)

    def h_close():
        f, inner, all0 = arbitrary()
        f.close()
        S.prove("close: everything written is in the file when it is closed",
                inner.closed_content == all0 if inner.closed_content is not None else z3.BoolVal(False))
        S.prove("close: closed reports the file's state", z3.BoolVal(f.closed is True))
    S.run("_BufferedFileLike.close", h_close)

    def h_close_fault():
        f, inner, all0 = arbitrary(True)
        try:
            f.close()
        except Fault:
            S.prove("close: the file is closed even when its last write fails", z3.BoolVal(inner.nclose == 1))
            S.prove("close: a refused last write is not half repeated", z3.PrefixOf(inner.content, all0))
            return
        S.prove("close under faults: a close that succeeds has written everything", inner.content == all0)
    S.run("_BufferedFileLike.close (failing file)", h_close_fault)

    def h_delegate():
        f, inner, all0 = arbitrary()
        S.prove("other attributes are the file's own", z3.BoolVal(f.mode is inner.mode and f.closed is False))
        try:
            f.no_such_attribute
            missing = False
        except AttributeError:
            missing = True
        S.prove("an attribute the file lacks is an AttributeError", z3.BoolVal(missing))
        S.prove("reading attributes changes nothing", full(f, inner) == all0)
    S.run("_BufferedFileLike.__getattr__", h_delegate)

    def h_install():
        import types
        ns = types.SimpleNamespace
        c = ctx()
        depth = next((k for k in range(4) if c.decide(c.fresh(z3.BoolSort(), "missing"))), 4)
        inner = Inner(False)
        rec = ns(_writer=inner) if depth > 3 else ns()
        ev = ns(_async_writer=ns(_writer=rec)) if depth > 2 else ns(_async_writer=ns())
        if depth <= 1:
            ev = ns()
        writer = ns(file_writer=ns(event_writer=ev)) if depth > 0 else ns()
        before = inner.content
        out = m.buffer_tensorboard_writer(writer)
        S.prove("install: the same writer comes back", z3.BoolVal(out is writer))
        S.prove("install: nothing is written", inner.content == before)
        if depth > 3:
            ok = isinstance(rec._writer, m._BufferedFileLike) and rec._writer._inner is inner
            S.prove("install: the buffer sits on the old file, below the record framing", z3.BoolVal(ok))
        else:
            S.prove("install: unknown internals leave the stock writer", z3.BoolVal(
                not hasattr(rec, "_writer") or rec._writer is inner))
    S.run("buffer_tensorboard_writer", h_install)
    S.assume_note("histories are covered by induction: each operation is proved from an arbitrary state in which file "
                  "and buffer split the written bytes in any way")


if __name__ == "__main__":
    from specs.common import main
    main(prove)
