"""D07 - sequential interleaving reads every entry once in a timing-free order."""
import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import (SymInt, SymBool, SymVal, LazySeq, SymRange, TInt, INT, NAT, BOOL, int_term, to_bool_term, SymList, TOpaque, T, is_symseq)
from pyvc.load import World, LoopSpec, NONE
from pyvc import shims

MOD = "dataset.sequential_source"
TRUSTED = ["a file holds finitely many entries and its reader returns entry after entry, advancing past exactly the entry read; "
           "the byte offsets of distinct entries differ and seek returns to the entry at an offset (codecs: B20)",
           "sample_is_admitted and the augmentation epoch generator are pure functions of their arguments (proved as D02)",
           "the file order lists every file of the shard exactly once (proved as D03)"]
I, B = z3.IntSort(), z3.BoolSort()
FW, EW, SW, JW = z3.Ints("watched_file watched_entry watched_subrecord watched_order_index")
LEN = z3.Function("entries_of_file", I, I)
OFF = z3.Function("byte_offset", I, I, I)
SHAPE = z3.Function("entry_shape", I, I, I)
CODE = z3.Function("shape_code", I, I)
COUNT = z3.Function("subrecords", I, I, I)
SIZE = z3.Function("entry_bytes", I, I, I)
ADM = z3.Function("admitted", I, I, I, I, I, B)
AUG = z3.Function("augmentation_epoch", I, I, I)
ORD = z3.Function("file_order", I, I)
U = z3.Function("rng_u64", I, I, I)


class Raw:
    """The bytes of entry e of file f."""
    __pyvc_type__ = bytes

    def __init__(self, f, e, empty=None):
        self.f, self.e, self.empty = f, e, empty

    def __bool__(self):
        return self.empty is None or not ctx().decide(self.empty)

    def __pyvc_len__(self):
        return SymInt(SIZE(self.f, self.e))


class Entry:
    def __init__(self, f, e):
        self.f, self.e = f, e


class Path:
    def __init__(self, f):
        self.f = f


class Key:
    __pyvc_type__ = bytes

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Key) and ctx().decide(self.f == o.f)

    __hash__ = None


class Descr:
    def __init__(self, f):
        self.path, self.file_ordinal, self.file_key, self.size = Path(f), SymInt(f), Key(f), NAT.fresh("size")


class Descrs:
    """File f of the source; file_ordinal is the index."""

    def __init__(self, n):
        self.n = n

    def __pyvc_len__(self):
        return self.n

    def __getitem__(self, i):
        t = int_term(i)
        if not ctx().decide(z3.And(t >= 0, t < self.n.t)):
            raise IndexError("no such file")
        return Descr(t)


class Stream:
    """An open file: positioned before an entry (or, half-read, inside one)."""
    __pyvc_heap__ = True

    def __init__(self, f, pos):
        self.f, self.pos, self.closed, self.off = f, pos, False, None

    def has(self):
        return self.pos < LEN(self.f)

    def tell(self):
        return SymInt(OFF(self.f, self.pos))

    def read(self, size=-1):
        ctx().session.prove("an open file is read", z3.BoolVal(not self.closed))
        self.off = self.pos                     # inside entry pos until a seek returns to its start
        return b"x" if ctx().decide(self.has()) else b""

    def seek(self, o):
        t = int_term(o)
        p = ctx().fresh(I, "seek")
        c = ctx()
        # offsets of entries are distinct: the offset of entry q leads back to entry q
        for q in SEEK + ([self.off] if self.off is not None else []):
            c.add(z3.Implies(t == OFF(self.f, q), p == q))
        self.pos, self.off = p, None

    def close(self):
        self.closed = True


class PeekStream(Stream):
    def peek(self, n):
        ctx().session.prove("an open file is read", z3.BoolVal(not self.closed))
        return b"x" if ctx().decide(self.has()) else b""


SEEK = []


class Order:
    """The file order: entry j is ORD(j); the watched file stands at JW and nowhere else."""

    def __init__(self, n, tag=0):
        self.n, self.tag = n, tag

    def __pyvc_len__(self):
        return self.n

    def __getitem__(self, i):
        c = ctx()
        if isinstance(i, slice):
            if i.start is not None or i.step is not None:
                raise Unsupported("slice of the file order")
            return Prefix(self, int_term(i.stop))
        t = int_term(i)
        c.session.prove("the file order is read in range", z3.And(t >= 0, t < self.n.t))
        c.add(z3.And(ORD(t) >= 0, ORD(t) < FILES[0].t, (ORD(t) == FW) == (t == JW)))
        return SymInt(ORD(t))

    def __eq__(self, o):
        if self is o or (isinstance(o, Order) and self.tag == o.tag):
            return True
        return ctx().decide(ctx().fresh(B, "same_order"))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


FILES = [None]


class Prefix:
    def __init__(self, order, stop):
        self.order, self.stop = order, stop


class Scheduled:
    def __init__(self, p):
        self.p = p

    def __contains__(self, x):
        t = int_term(x)
        c = ctx()
        if c.decide(t == FW):
            return c.decide(JW < self.p.stop)
        j = SLOT.get(t.get_id())
        if j is None:
            return c.decide(c.fresh(B, "scheduled"))
        return c.decide(j < self.p.stop)


SLOT = {}


class WList:
    """A list of which one arbitrary element (slot s) is followed exactly; any other element is made by other(i)
    afresh and given to check(x) when the code is done with it."""
    __pyvc_heap__ = True

    def __init__(self, n, w=None, s=None, other=None, check=None, drop=None):
        self.n, self.w, self.s = n, w, s
        self.other, self.check, self.drop = other, check, drop
        self.focus = None

    def __pyvc_len__(self):
        return self.n

    def __bool__(self):
        return ctx().decide(self.n.t > 0)

    def _in_range(self, t):
        ctx().session.prove("list index in range", z3.And(t >= 0, t < self.n.t))

    def _is_w(self, t):
        return self.w is not None and ctx().decide(t == self.s)

    def flush(self):
        if self.focus is not None:
            if self.check:
                self.check(self.focus[1])
            self.focus = None

    def __getitem__(self, i):
        t = z3.simplify(int_term(i))
        self._in_range(t)
        if self._is_w(t):
            return self.w
        if self.focus is not None:
            if z3.eq(t, self.focus[0]) or ctx().decide(t == self.focus[0]):
                return self.focus[1]
            self.flush()
        self.focus = (t, self.other(t))
        return self.focus[1]

    def __setitem__(self, i, x):
        t = z3.simplify(int_term(i))
        self._in_range(t)
        if self._is_w(t):
            self.drop(self.w)
            self.w = self.s = None
        elif self.focus is not None and (z3.eq(t, self.focus[0]) or ctx().decide(t == self.focus[0])):
            self.drop(self.focus[1])
            self.focus = None
        else:
            raise Unsupported("an element is replaced unseen")
        if ctx().decide(int_term(x.descriptor_index) == FW):
            ctx().session.prove("the watched file is opened once", z3.BoolVal(self.w is None))
            self.w, self.s = x, t
        else:
            self.focus = (t, x)

    def pop(self, i):
        t = z3.simplify(int_term(i))
        self._in_range(t)
        if self._is_w(t):
            x = self.w
            self.w = self.s = None
            self.flush()
        else:
            x = self[i]
            self.focus = None
            if self.w is not None:
                self.s = z3.simplify(z3.If(self.s > t, self.s - 1, self.s))
        self.drop(x)
        self.n = SymInt(z3.simplify(self.n.t - 1))
        return x

    def append(self, x):
        self.flush()
        if self.w is None and self.s is not None and ctx().decide(self.s == self.n.t):
            self.w = x
        else:
            self.focus = (self.n.t, x)
        self.n = SymInt(z3.simplify(self.n.t + 1))

    def __iter__(self):
        # for bodies that carry nothing from element to element: the followed one and an arbitrary other one
        if self.w is not None:
            yield self.w
        if ctx().decide(self.n.t > (0 if self.w is None else 1)):
            t = ctx().fresh(I, "other")
            ctx().add(z3.And(t >= 0, t < self.n.t, t != self.s if self.w is not None else z3.BoolVal(True)))
            yield self.other(t)

    def clear(self):
        self.cleared = True
        self.n = SymInt(z3.IntVal(0))
        self.w = self.s = self.focus = None


class Model:
    def __init__(self, S, m, sub, raw, peek):
        self.S, self.m, self.sub, self.raw_mode, self.peek = S, m, sub, raw, peek
        c = ctx()
        SEEK.clear()
        SLOT.clear()
        S_ = Stream
        self.stream = PeekStream if peek else S_
        self.files = TInt(lo=1).fresh("files")
        FILES[0] = self.files
        self.norder = NAT.fresh("order")
        self.q = TInt(lo=1).fresh("quantum")
        self.streams = TInt(lo=1).fresh("streams")
        c.inputs.update(watched_file=FW, watched_entry=EW, watched_subrecord=SW, active_streams=self.streams.t, quantum=self.q.t,
                        entries=LEN(FW))
        c.add(z3.And(FW >= 0, FW < self.files.t, JW >= 0, JW < self.norder.t, EW >= 0, EW < LEN(FW), SW >= 0, SW < COUNT(FW, EW),
                     LEN(FW) >= 0))
        if not sub:
            c.add(SW == 0)
        self.total = z3.IntVal(0)
        src = self.src = object.__new__(self.cls())
        src.descriptors = Descrs(self.files)
        src.format_id, src.schema_version, src.seed = "fmt", 1, 7
        src.sample_rate = 0.5
        src.active_streams, src.read_quantum = self.streams, self.q
        src.shape_codes = self
        src.shuffle, src._active_epoch = True, -1
        src.open_file = self.open
        src.subrecord_count = self.count if sub else None
        src.shape_of = self.shape_of
        src.read_raw_entry = self.read if raw else None
        src.decode_raw_entry = self.decode if raw else None
        src.read_entry = None if raw else self.read_captured
        src.materialize_entry = self.materialize
        self.epoch, self.cycle, self.rank = NAT.fresh("epoch"), NAT.fresh("cycle"), NAT.fresh("rank")
        src._rank, src._world_size, src._rank_sharded = self.rank, SymInt(self.rank.t + 1), True
        self.order = Order(self.norder)
        m.sample_is_admitted = self.admitted

        class Caps:
            resumable = True
        src.capabilities = Caps

    def cls(self):
        model, base = self, self.m.InterleavedSequentialSource

        def aug(self_, cursor):
            return SymInt(AUG(int_term(cursor.epoch), int_term(cursor.cycle)))
        return type("Source", (base,), {"_augmentation_epoch": aug, "_file_order": lambda s, e, c, r: model.order_of(e, c, r)})

    def open(self, p):
        ctx().add(LEN(p.f) >= 0)
        return self.stream(p.f, z3.IntVal(0))

    def order_of(self, e, c, r):
        self.asked = (e, c, r)
        return self.order

    # -- the contracts of the format callbacks -----------------------------------
    def get(self, shape):                       # shape_codes.get
        if shape is None:
            return None
        t = int_term(shape[0])
        c = ctx()
        if c.decide(c.ghost.setdefault(("undeclared", t.get_id()), (c.fresh(B, "undeclared"), t))[0]):
            return None
        c.add(z3.And(CODE(t) >= 0, CODE(t) < z3.Int("shape_codes")))
        return SymInt(CODE(t))

    def __pyvc_len__(self):
        n = z3.Int("shape_codes")
        ctx().add(n >= 0)
        return SymInt(n)

    def read(self, st):
        S, c = self.S, ctx()
        S.prove("entries are read from an open file, at the start of an entry, before its end",
                z3.And(z3.BoolVal(not st.closed and st.off is None), st.has(), st.pos >= 0))
        self.reads = getattr(self, "reads", 0) + 1
        if c.decide(c.fresh(B, "truncated")):
            raise EOFError("short")
        e = st.pos
        st.pos = z3.simplify(e + 1)
        self.total = z3.simplify(self.total - 1)
        return Raw(st.f, e, c.fresh(B, "empty"))

    def read_captured(self, st):
        if isinstance(st, RawStream):
            st.at_end = True
            return Entry(st.raw.f, st.raw.e)
        raw = self.read(st.source)
        st.raw = raw
        return Entry(raw.f, raw.e)

    def decode(self, raw):
        self.S.prove("only entry bytes are decoded", z3.BoolVal(isinstance(raw, Raw)))
        return Entry(raw.f, raw.e)

    def entry_ok(self, x):
        self.S.prove("the callback gets the entry", z3.BoolVal(isinstance(x, Raw if self.raw_mode else Entry)))

    def shape_of(self, x):
        self.entry_ok(x)
        if ctx().decide(SHAPE(x.f, x.e) == -1):
            return None
        return (SymInt(SHAPE(x.f, x.e)),)

    def count(self, x):
        self.entry_ok(x)
        return SymInt(COUNT(x.f, x.e))

    def key(self, key):
        """(file, entry, cycle, subrecord) of a record key."""
        base = 2 if self.sub else 1
        ok = (isinstance(key, tuple) and len(key) == 4 and key[0] == "sequential" and isinstance(key[1], Key) and key[2] == "fmt"
              and isinstance(key[3], tuple) and len(key[3]) in (base, base + 1))
        self.S.prove("the record key has its documented form", z3.BoolVal(ok))
        if not ok:
            raise Unsupported("record key")
        a = key[3]
        cyc = z3.IntVal(0) if len(a) == base else int_term(a[0])
        a = a[-base:]
        return key[1].f, int_term(a[0]), cyc, (int_term(a[1]) if self.sub else z3.IntVal(0))

    def admitted(self, rate, seed, epoch, key):
        f, e, cyc, s = self.key(key)
        self.S.prove("admission is asked with the rate, seed and epoch of the pass and the key of the cycle",
                     z3.And(z3.BoolVal(rate == 0.5 and seed == 7), int_term(epoch) == AUG(self.epoch.t, self.cycle.t), cyc == self.cycle.t))
        return SymBool(ADM(int_term(epoch), f, cyc, e, s))

    def materialize(self, entry, key, aug, sub=None):
        return Sample(entry, key, aug, sub)

    # -- readers -----------------------------------------------------------------
    def wf(self, r, lo=1):
        st = r.stream
        e = int_term(r.entry_index)
        d = int_term(r.descriptor_index)
        out = [st.f == d, z3.BoolVal(not st.closed and st.off is None), st.pos == e, e >= 0, e <= LEN(d)]
        if r.pending is not None:
            p = r.pending
            pe = int_term(p.entry_index)
            out += [pe == e - 1, pe >= 0, p.raw_entry.f == d, p.raw_entry.e == pe, SHAPE(d, pe) != -1,
                    int_term(p.shape_code) == CODE(SHAPE(d, pe)), int_term(p.shape_code) >= 0, int_term(p.next_subrecord) >= lo,
                    int_term(p.next_subrecord) < int_term(p.subrecord_count),
                    int_term(p.subrecord_count) == (COUNT(d, pe) if self.sub else 1)]
        return z3.And(out)

    def fresh_reader(self, d, pending=None):
        c = ctx()
        e = NAT.fresh("entry")
        r = self.m._ActiveReader(SymInt(d), self.stream(d, e.t), e, None)
        c.add(e.t <= LEN(d))
        c.add(LEN(d) >= 0)
        if self.sub and (c.decide(c.fresh(B, "pending")) if pending is None else pending):
            r.pending = self.fresh_pending(d, z3.simplify(e.t - 1))
            c.add(e.t >= 1)
        return r

    def fresh_pending(self, d, pe, lo=1):
        c = ctx()
        nx = INT.fresh("next_sub")
        c.add(z3.And(SHAPE(d, pe) != -1, CODE(SHAPE(d, pe)) >= 0, CODE(SHAPE(d, pe)) < z3.Int("shape_codes"), nx.t >= lo, nx.t < COUNT(d, pe)))
        t = SHAPE(d, pe)
        c.ghost[("undeclared", t.get_id())] = (z3.BoolVal(False), t)
        return self.m._PendingEntry(Raw(d, pe), SymInt(pe), SymInt(CODE(SHAPE(d, pe))), nx, SymInt(COUNT(d, pe)))

    def other(self, t):
        c = ctx()
        d, j = c.fresh(I, "other_file"), c.fresh(I, "other_order")
        c.add(z3.And(d >= 0, d < self.files.t, d != FW, j >= 0, j < self.opened(), j != JW))
        SLOT[d.get_id()] = j
        return self.fresh_reader(d)

    def opened(self):
        return self.nfp_now()

    def check_other(self, r):
        self.S.prove("every reader stays well-formed", self.wf(r))

    def drop(self, r):
        self.S.prove("a reader is given up only at the end of its file, closed and with nothing pending",
                     z3.And(z3.BoolVal(r.stream.closed and r.pending is None), r.stream.pos == LEN(r.stream.f)))

    def fresh_active(self, present, opened):
        c = ctx()
        n = NAT.fresh("active")
        self.nfp_now = lambda: opened
        a = WList(n, other=self.other, check=self.check_other, drop=self.drop)
        if present:
            a.w, a.s = self.fresh_reader(FW), c.fresh(I, "slot")
            c.add(z3.And(a.s >= 0, a.s < n.t))
        return a

    def fresh_cursor(self, present=None):
        c = ctx()
        nfp = NAT.fresh("next_file")
        if present is None:
            present = c.decide(c.fresh(B, "open"))
        a = self.fresh_active(present, nfp.t)
        cur = self.m.SequentialCursor(self.epoch, self.cycle, self.rank, self.order, nfp, a, NAT.fresh("turn"), NAT.fresh("used"))
        for _, f in self.inv(cur):
            c.add(to_bool_term(f))
        return cur

    def inv(self, cur):
        n, nfp, turn, used = (int_term(x) for x in (cur.active.n, cur.next_file_position, cur.turn, cur.quantum_used))
        yield "files are opened in order", z3.And(nfp >= 0, nfp <= self.norder.t)
        yield "a file is read only after it was opened", z3.Implies(nfp <= JW, z3.BoolVal(cur.active.w is None))
        yield "no more readers than allowed", z3.And(n >= 0, n <= self.streams.t)
        yield "a free reader slot is used while files wait", z3.Implies(nfp < self.norder.t, z3.And(n == self.streams.t, n <= nfp))
        yield "the turn is a reader", z3.And(turn >= 0, z3.Or(turn < n, z3.And(n == 0, turn == 0)))
        yield "the quantum is not exceeded", z3.And(used >= 0, used < self.q.t, z3.Implies(n == 0, used == 0))
        if cur.active.w is not None:
            r = cur.active.w
            yield "the watched reader stays well-formed", z3.And(self.wf(r), int_term(r.descriptor_index) == FW,
                                                                 cur.active.s >= 0, cur.active.s < n)

    def good(self):
        return z3.And(SHAPE(FW, EW) != -1, ADM(AUG(self.epoch.t, self.cycle.t), FW, self.cycle.t, EW, SW))

    def passed(self, cur):
        """The position in the watched file is past the watched record."""
        r = cur.active.w
        if r is not None:
            if r.pending is not None:
                e, s = int_term(r.pending.entry_index), int_term(r.pending.next_subrecord)
            else:
                e, s = int_term(r.entry_index), z3.IntVal(0)
            return z3.Or(EW < e, z3.And(EW == e, SW < s))
        return int_term(cur.next_file_position) > JW          # closed: past everything; waiting: before everything

    def delivered(self, cur):
        return z3.If(z3.And(self.good(), self.passed(cur)), z3.IntVal(1), z3.IntVal(0))

    def position(self, cur):
        r = cur.active.w
        if r is None:
            return z3.If(int_term(cur.next_file_position) > JW, LEN(FW), z3.IntVal(0)), z3.IntVal(0)
        if r.pending is not None:
            return int_term(r.pending.entry_index), int_term(r.pending.next_subrecord)
        return int_term(r.entry_index), z3.IntVal(0)


class Sample:
    def __init__(self, entry, key, aug, sub):
        self.entry, self.key, self.aug, self.sub = entry, key, aug, sub


class RawStream:
    def __init__(self, raw):
        self.raw, self.at_end = raw, False

    def tell(self):
        return SymInt(SIZE(self.raw.f, self.raw.e)) if self.at_end else SymInt(z3.IntVal(0))


class FakeIo:
    BytesIO = RawStream


class Capture:
    """Contract of _CaptureReader: payload is what the reads through it consumed."""

    def __init__(self, source):
        self.source, self.raw = source, None

    @property
    def payload(self):
        return self.raw


def theorem_small_mod():
    """For every a mod b recorded on this path: a < b gives a, a = b gives 0 (true of all integers a >= 0, b > 0)."""
    c = ctx()
    for ta, tb, q, r in c.ghost.get("divmods", ()):
        c.add(z3.Implies(z3.And(ta >= 0, tb > 0, ta < tb), z3.And(q == 0, r == ta)))
        c.add(z3.Implies(z3.And(tb > 0, ta == tb), z3.And(q == 1, r == 0)))


def next_envelope(S, sub, raw, peek):
    held = {}

    def outer_inv(L):
        M = held["M"]
        cur = L.cursor
        theorem_small_mod()
        cur.active.flush()
        yield from M.inv(cur)
        yield "records delivered so far are the admitted ones passed", held["emit"] == M.delivered(cur)
        head = held.get("head")
        n, turn, used, nfp = (int_term(x) for x in (cur.active.n, cur.turn, cur.quantum_used, cur.next_file_position))
        if head is None:
            pe, ps = M.position(cur)
            e0, s0 = held["pos"]
            yield "a file is never read backwards", z3.Or(pe > e0, z3.And(pe == e0, ps >= s0))
        elif head == "assume":
            pe, ps = M.position(cur)
            e0, s0 = held["pos"]
            yield "a file is never read backwards", z3.Or(pe > e0, z3.And(pe == e0, ps >= s0))
        else:
            pe, ps = M.position(cur)
            e0, s0 = held["pos"]
            yield "a file is never read backwards", z3.Or(pe > e0, z3.And(pe == e0, ps >= s0))
            yield from step(M, cur, head)

    def step(M, cur, head):
        n, turn, used, nfp = (int_term(x) for x in (cur.active.n, cur.turn, cur.quantum_used, cur.next_file_position))
        n0, turn0, used0, nfp0, reads0 = head
        reads = getattr(M, "reads", 0) - reads0
        yield "at most one entry is read per step", z3.BoolVal(reads in (0, 1))
        if reads:
            yield "reading an entry uses up the quantum and rotates when it is exhausted", z3.If(
                used0 + 1 >= M.q.t, z3.And(used == 0, turn == z3.If(turn0 + 1 == n0, 0, turn0 + 1)),
                z3.And(used == used0 + 1, turn == turn0))
            yield "reading an entry opens and closes nothing", z3.And(n == n0, nfp == nfp0)
        else:
            replaced = z3.And(n == n0, nfp == nfp0 + 1, turn == turn0, used == 0)
            removed = z3.And(n == n0 - 1, nfp == nfp0, nfp0 == M.norder.t, used == 0,
                             turn == z3.If(z3.And(turn0 == n, n > 0), 0, turn0))
            removed = z3.Or(removed, z3.And(n == 0, n0 == 1, nfp == nfp0, nfp0 == M.norder.t, used == 0, turn == turn0))
            same = z3.And(n == n0, nfp == nfp0, turn == turn0, used == used0)
            yield "otherwise the reader is replaced by the next file, removed when none waits, or has pending records", z3.Or(
                replaced, removed, same)

    def havoc(L):
        M, cur = held["M"], L.cursor
        c = ctx()
        nfp = NAT.fresh("next_file")
        present = c.decide(c.fresh(B, "open_later"))
        yield "attr", cur, "next_file_position", lambda v: nfp
        yield "attr", cur, "turn", NAT
        yield "attr", cur, "quantum_used", NAT
        yield "attr", cur, "active", lambda v: M.fresh_active(present, nfp.t)
        a = cur.active
        for k in ("n", "w", "s", "focus"):
            yield "attr", a, k, lambda v: v
        if a.w is not None:
            for k in ("entry_index", "pending"):
                yield "attr", a.w, k, lambda v: v
            for k in ("pos", "off", "closed"):
                yield "attr", a.w.stream, k, lambda v: v
            if a.w.pending is not None:
                yield "attr", a.w.pending, "next_subrecord", lambda v: v
        held["head"] = "assume"
        M.total = NAT.fresh("entries_left").t

    class Step(dict):
        pass

    def variant(L):
        M, cur = held["M"], L.cursor
        c = ctx()
        if held["head"] == "assume":
            # the head of the arbitrary iteration
            held["head"] = (int_term(cur.active.n), int_term(cur.turn), int_term(cur.quantum_used),
                            int_term(cur.next_file_position), getattr(M, "reads", 0))
            held["pend"] = c.fresh(I, "pending_readers")
            c.add(held["pend"] >= 0)
            held["touched"] = []
            return (M.norder.t - int_term(cur.next_file_position) + int_term(cur.active.n), M.total, SymInt(held["pend"]))
        return (M.norder.t - int_term(cur.next_file_position) + int_term(cur.active.n), M.total,
                SymInt(held["pend"] - held.get("cleared", 0)))

    def inner_inv(L):
        M = held["M"]
        r, cur, p = L.reader, L.cursor, L.pending
        held["inner"] = held.get("inner", 0) + 1
        if p is None:
            yield "a reader without pending entry is well-formed", z3.And(z3.BoolVal(r.pending is None), M.wf(r))
        else:
            yield "the pending entry is the reader's", z3.And(z3.BoolVal(r.pending is p), M.wf(r, lo=0))
        yield "records delivered so far are the admitted ones passed", held["emit"] == M.delivered(cur)
        pe, ps = M.position(cur)
        e0, s0 = held["pos"]
        yield "a file is never read backwards", z3.Or(pe > e0, z3.And(pe == e0, ps >= s0))

    def inner_havoc(L):
        c = ctx()
        p = L.pending
        left = p is not None and c.decide(c.fresh(B, "records_left"))
        held["left"] = p if left else None
        yield "attr", L.reader, "pending", lambda v: held["left"]
        if p is not None:
            yield "attr", p, "next_subrecord", lambda v: INT.fresh("next_sub")

    skip = lambda v: None
    loops = {f"{MOD}:InterleavedSequentialSource.next_envelope#0": LoopSpec(
        inv=outer_inv, havoc=havoc, variant=variant,
        types={k: skip for k in ("reader", "descriptor", "envelope", "entry_index", "raw_entry", "entry", "capture", "shape", "shape_code",
                                 "count", "exc")})}
    if sub:
        loops[f"{MOD}:InterleavedSequentialSource._next_pending_envelope#0"] = LoopSpec(
            inv=inner_inv, havoc=inner_havoc,
            variant=lambda L: SymInt(z3.IntVal(0) if L.pending is None else
                                     int_term(L.pending.subrecord_count) - int_term(L.pending.next_subrecord)),
            types={"pending": lambda v: NONE if held["left"] is None else held["left"], **{k: skip for k in ("subrecord", "base_address", "address", "record_key")}})
    w = World(loops=loops)
    m = w.module(MOD)
    m._CaptureReader = Capture
    m.io = FakeIo

    def h():
        c = ctx()
        held.clear()
        M = held["M"] = Model(S, m, sub, raw, peek)
        inner = M.src._next_pending_envelope

        def watched_pending(cur, r, d):
            had = r.pending is not None
            was = held.get("head")
            out = inner(cur, r, d)
            if r.pending is None:
                held["cleared"] = 1        # a reader lost its pending entry in this iteration
            return out
        object.__setattr__(M.src, "_next_pending_envelope", watched_pending)
        cur = M.fresh_cursor()
        held["emit"] = M.delivered(cur)
        held["pos"] = M.position(cur)
        emit0 = held["emit"]
        try:
            env, after = M.src.next_envelope(cur)
        except RuntimeError as e:
            S.prove("a malformed entry is reported", z3.BoolVal(True))
            return
        theorem_small_mod()
        S.prove("the cursor itself is advanced", z3.BoolVal(after is cur))
        cur.active.flush()
        if env is None:
            for label, f in M.inv(cur):
                S.prove(f"afterwards: {label}", f)
            S.prove("the end is reported when every file was opened and read to its end", z3.And(
                int_term(cur.active.n) == 0, int_term(cur.next_file_position) == M.norder.t, z3.BoolVal(cur.active.w is None)))
            S.prove("at the end every admitted record was delivered exactly once", z3.Implies(M.good(), emit0 == 1))
            c.completed = True
            return
        for label, f in M.inv(cur):
            S.prove(f"afterwards: {label}", f)
        f, e, cyc, s = M.key(env.record_key)
        isw = z3.And(f == FW, e == EW, s == SW)
        S.prove("a record is delivered exactly when the position passes it", emit0 + z3.If(isw, z3.IntVal(1), z3.IntVal(0)) == M.delivered(cur))
        pe, ps = M.position(cur)
        e0, s0 = held["pos"]
        S.prove("the watched file is never read backwards", z3.Or(pe > e0, z3.And(pe == e0, ps >= s0)))
        S.prove("only admitted records are delivered", z3.And(
            ADM(AUG(M.epoch.t, M.cycle.t), f, cyc, e, s), cyc == M.cycle.t, SHAPE(f, e) != -1, e >= 0, e < LEN(f), s >= 0,
            s < (COUNT(f, e) if sub else 1)))
        p = env.payload
        S.prove("the payload holds the bytes and subrecord of that entry", z3.And(
            z3.BoolVal(isinstance(p.raw_entry, Raw)), p.raw_entry.f == f, p.raw_entry.e == e,
            (int_term(p.subrecord) == s) if sub else z3.BoolVal(p.subrecord is None),
            int_term(p.augmentation_epoch) == AUG(M.epoch.t, M.cycle.t)))
        S.prove("the record is attributed to its file and shape", z3.And(
            int_term(env.source_id) == f, int_term(env.shape_code) == CODE(SHAPE(f, e))))
        S.prove("resident bytes cover the entry", int_term(env.resident_bytes) >= SIZE(f, e))
        if isinstance(held.get("head"), tuple):
            for label, g in step(M, cur, held["head"]):
                S.prove(label, g)
        S.prove("file order, epoch, cycle and rank stay", z3.BoolVal(
            cur.epoch is M.epoch and cur.cycle is M.cycle and cur.rank is M.rank and cur.file_order is M.order))
        c.completed = True
    S.run(f"next_envelope[{'subrecords' if sub else 'entries'}, {'raw' if raw else 'captured'}, {'peek' if peek else 'seek'}]", h)


def small(S):
    m = World().module(MOD)

    def h_aug():
        base = m.InterleavedSequentialSource
        src = base.__new__(base)
        src.seed = 7
        asked = []

        def rng(seed, domain, key):
            asked.append((seed, domain, key))
            v = U(int_term(key[0]), int_term(key[1]))
            ctx().add(z3.And(v >= 0, v < 1 << 64))
            return SymInt(v)
        m.rng_u64 = rng
        e, cyc = NAT.fresh("epoch"), NAT.fresh("cycle")
        cur = m.SequentialCursor(e, cyc, 0, (), 0, [], 0, 0)
        got = int_term(src._augmentation_epoch(cur))
        S.prove("augmentation epoch: the first cycle uses the epoch", z3.Implies(cyc.t == 0, got == e.t))
        if asked:
            S.prove("augmentation epoch: a later cycle draws from seed, epoch and cycle alone", z3.BoolVal(
                len(asked) == 1 and asked[0][0] == 7 and asked[0][2][0] is e and asked[0][2][1] is cyc))
            S.prove("augmentation epoch: fits in 63 bits", z3.And(got >= 0, got < 1 << 63))
    S.run("_augmentation_epoch", h_aug)

    def h_start():
        c = ctx()
        M = Model(S, m, True, True, True)
        M.nfp_now = lambda: z3.IntVal(0)

        def comp(kind, f, src, cond):
            if isinstance(src, SymRange) and kind == "list" and cond is None:
                n = int_term(src.length())
                a = WList(SymInt(n), other=None, check=M.check_other, drop=M.drop)
                if c.decide(JW < n):
                    a.w, a.s = f(SymInt(JW)), JW
                    c.session.prove("slot i reads file i of the order", int_term(a.w.descriptor_index) == FW)
                t = c.fresh(I, "slot")
                if c.decide(z3.And(t >= 0, t < n, t != JW)):
                    r = f(SymInt(t))
                    S.prove("slot i reads file i of the order", z3.And(int_term(r.descriptor_index) == ORD(t), M.wf(r)))
                return a
            return shims.s_comp(kind, f, src, cond)
        m.__dict__["__pyvc_comp__"] = comp
        try:
            try:
                cur = M.src.start_cycle(M.epoch, M.cycle, M.rank)
            except ValueError:
                S.prove("start: refuses only another rank", z3.BoolVal(False))
                return
            for label, f in M.inv(cur):
                S.prove(f"start: {label}", f)
            S.prove("start: nothing was delivered", z3.Not(M.passed(cur)))
            S.prove("start: the order of that epoch, cycle and rank", z3.BoolVal(
                cur.file_order is M.order and M.asked[0] is M.epoch and M.asked[1] is M.cycle and M.asked[2] is M.rank
                and cur.epoch is M.epoch and cur.cycle is M.cycle and cur.rank is M.rank))
            S.prove("start: the first turn", z3.And(int_term(cur.turn) == 0, int_term(cur.quantum_used) == 0))
        finally:
            m.__dict__["__pyvc_comp__"] = shims.s_comp
    S.run("start_cycle", h_start)

    def h_refuse():
        M = Model(S, m, True, True, True)
        e, cyc, r = INT.fresh("e"), INT.fresh("c"), INT.fresh("r")
        ctx().add(z3.Or(e.t < 0, cyc.t < 0, r.t != M.rank.t))
        try:
            M.src.start_cycle(e, cyc, r)
            S.prove("start: a negative epoch or cycle or another rank is refused", z3.BoolVal(False))
        except ValueError:
            S.prove("start: a negative epoch or cycle or another rank is refused", z3.BoolVal(True))
    S.run("start_cycle[refusals]", h_refuse)

    def h_capture():
        class Tape:
            def __init__(self):
                self.out = b""

            def read(self, size=-1):
                v = [b"", b"A", b"BC"][0 if size == 0 else 1 if size == 1 else 2]
                self.out += v
                return v

            def readinto(self, buf):
                k = min(len(buf), 2)
                buf[:k] = b"XY"[:k]
                self.out += b"XY"[:k]
                return k

            def tell(self):
                return 77
        for first in (None, b"", b"prior"):
            for step in ("read0", "read1", "read2", "into0", "into1", "into3", "intoview"):
                t = Tape()
                r = m._CaptureReader(t)
                if first is not None:
                    r.parts.append(first)
                before = r.payload
                S.prove("capture: payload is the parts in order", z3.BoolVal(before == (first or b"")))
                if step.startswith("read"):
                    v = r.read(int(step[4:]))
                    S.prove("capture: read passes through", z3.BoolVal(v == t.out))
                else:
                    buf = bytearray(4) if step == "intoview" else bytearray(int(step[4:]))
                    r.readinto(memoryview(buf) if step == "intoview" else buf)
                S.prove("capture: a read appends exactly the bytes it consumed", z3.BoolVal(r.payload == before + t.out))
                S.prove("capture: tell is the source's", z3.BoolVal(r.tell() == 77))
    S.run("_CaptureReader", h_capture)

    def h_payload():
        M = Model(S, m, True, True, True)
        sub = NAT.fresh("sub")
        aug = NAT.fresh("aug")
        ctx().add(aug.t < 1 << 63)
        p = m.SequentialPayload(Raw(FW, EW), sub, aug)
        q = M.src.restore_payload(m.InterleavedSequentialSource.save_payload(p))
        S.prove("payload: restored as saved", z3.And(z3.BoolVal(q.raw_entry is p.raw_entry), int_term(q.subrecord) == sub.t,
                                                     int_term(q.augmentation_epoch) == aug.t))
        for bad in ({}, {"raw_entry": "text", "subrecord": 0, "augmentation_epoch": 0}, {"raw_entry": b"", "subrecord": 0, "augmentation_epoch": 0},
                    {"raw_entry": b"x", "subrecord": None, "augmentation_epoch": 0}, {"raw_entry": b"x", "subrecord": 0},
                    {"raw_entry": b"x", "subrecord": -1, "augmentation_epoch": 0}, {"raw_entry": b"x", "subrecord": 0, "augmentation_epoch": -1},
                    {"raw_entry": b"x", "subrecord": 0, "augmentation_epoch": 1 << 63}):
            try:
                M.src.restore_payload(bad)
                S.prove("payload: a malformed state is refused", z3.BoolVal(False))
            except ValueError:
                S.prove("payload: a malformed state is refused", z3.BoolVal(True))
    S.run("save_payload/restore_payload", h_payload)


class Saved(LazySeq):
    """What a comprehension makes of a WList: f of the followed element at its slot, f of an arbitrary other one elsewhere."""

    def __init__(self, wl, f):
        super().__init__(SymRange(0, wl.n, 1), self.item)
        self.wl, self.fn, self.now = wl, f, None

    def __bool__(self):
        return ctx().decide(self.wl.n.t > 0)

    def item(self, i):
        t = int_term(i)
        if self.wl.w is not None and ctx().decide(t == self.wl.s):
            self.now = self.wl.w
        else:
            self.now = self.wl.other(t)
        SEEK.append(int_term(self.now.entry_index))
        return self.fn(self.now)

    def samples(self):
        """f of the followed element and of one arbitrary other."""
        out = []
        if self.wl.w is not None:
            out.append(self.fn(self.wl.w))
        if ctx().decide(self.wl.n.t > len(out)):
            out.append(self.fn(self.wl.other(ctx().fresh(I, "slot"))))
        return out


class DistinctSet:
    """The set of the distinct file numbers of the readers (every file is opened once: proved for next_envelope)."""

    def __init__(self, n):
        self.n = n

    def __pyvc_len__(self):
        return self.n


def save_restore(S, sub, raw, peek, spoil=None):
    held = {}

    def inv(L):
        M, a = held["M"], L.active
        yield "one reader per saved reader", z3.BoolVal(isinstance(a, WList)) if isinstance(a, WList) else z3.BoolVal(len(a) == 0)
        if not isinstance(a, WList):
            return
        a.flush()
        yield "one reader per saved reader", int_term(a.n) == int_term(L.i)
        w = held["cur"].active.w
        if w is None:
            yield "no other file is opened", z3.BoolVal(a.w is None)
        else:
            s = held["cur"].active.s
            yield "the reader stands in its slot", (z3.And(int_term(L.i) > s, a.s == s) if a.w is not None else int_term(L.i) <= s)
            if a.w is not None:
                yield "the reader continues where it was saved", same(a.w, w)

    def same(a, b):
        p, q = a.pending, b.pending
        out = [int_term(a.descriptor_index) == int_term(b.descriptor_index), int_term(a.entry_index) == int_term(b.entry_index),
               a.stream.f == b.stream.f, a.stream.pos == b.stream.pos, z3.BoolVal(not a.stream.closed and a.stream.off is None),
               z3.BoolVal((p is None) == (q is None) and a.stream is not b.stream)]
        if p is not None and q is not None:
            out += [p.raw_entry.f == q.raw_entry.f, p.raw_entry.e == q.raw_entry.e]
            out += [int_term(getattr(p, k)) == int_term(getattr(q, k)) for k in ("entry_index", "shape_code", "next_subrecord", "subrecord_count")]
        return z3.And(out)

    def check(r):
        now = held["saved"].now
        S.prove("restore: any reader continues where it was saved", same(r, now))
        held["checked"] = True

    def fresh_list(L):
        M, c = held["M"], ctx()
        w, s = held["cur"].active.w, held["cur"].active.s
        a = WList(NAT.fresh("opened"), other=lambda t: M.fresh_reader(c.fresh(I, "opened")), check=check)
        if w is not None:
            if c.decide(c.fresh(B, "open_before")):
                p = w.pending
                a.w = M.m._ActiveReader(SymInt(FW), M.stream(FW, w.stream.pos), w.entry_index, None)
                if p is not None:
                    a.w.pending = M.m._PendingEntry(Raw(FW, p.raw_entry.e), p.entry_index, p.shape_code, p.next_subrecord, p.subrecord_count)
            a.s = s
        held["list"] = a
        return a
    skip = lambda v: None
    w = World(loops={f"{MOD}:InterleavedSequentialSource.restore_cursor#0": LoopSpec(
        inv=inv, types={"active": lambda v: fresh_list(None), **{k: skip for k in (
            "descriptor_index", "entry_index", "byte_offset", "pending_state", "reader", "raw_entry", "pending_entry_index", "shape_code",
            "next_subrecord", "subrecord_count", "pending_entry", "pending_stream", "expected_shape", "expected_shape_code",
            "expected_subrecords", "exc", "item")}})})
    m = w.module(MOD)
    m._CaptureReader, m.io = Capture, FakeIo

    def comp(kind, f, src, cond):
        if isinstance(src, WList) and kind == "list" and cond is None:
            held["saved"] = Saved(src, f)
            return held["saved"]
        if isinstance(src, Order) and cond is None:
            return src
        if isinstance(src, Saved) and kind == "list" and cond is None:
            return src if src is not held["saved"] else Derived(src, f)
        if isinstance(src, Derived) and kind == "gen" and cond is None:
            return [f(x) for x in src.samples()]
        return shims.s_comp(kind, f, src, cond)

    class Derived:
        def __init__(self, src, f):
            self.src, self.f = src, f

        def __pyvc_len__(self):
            return self.src.wl.n

        def samples(self):
            return [self.f(x) for x in self.src.samples()]
    m.__dict__["__pyvc_comp__"] = comp
    keep = lambda orig, kinds: (lambda x=(): x if isinstance(x, kinds) else orig(x))
    m.list, m.tuple = keep(m.__dict__.get("list", list), (Order, Saved, WList)), keep(m.__dict__.get("tuple", tuple), (Order, Saved, WList))
    oset = m.__dict__.get("set", set)
    m.set = lambda x=(): (Scheduled(x) if isinstance(x, Prefix) else DistinctSet(x.src.wl.n) if isinstance(x, Derived) else oset(x))

    def h():
        c = ctx()
        held.clear()
        M = held["M"] = Model(S, m, sub, raw, peek)
        closed = []
        cls = type(M.src)
        initial = m.SequentialCursor(M.epoch, M.cycle, M.rank, M.order, 0, WList(NAT.fresh("initial")), 0, 0)

        def start(self, e, cyc, r):
            S.prove("restore: asks for the order of the saved epoch, cycle and rank", z3.And(
                int_term(e) == M.epoch.t, int_term(cyc) == M.cycle.t, int_term(r) == M.rank.t))
            return initial
        cls.start_cycle = start
        cls.close_cursor = lambda self, cursor: closed.append(cursor)
        cur = held["cur"] = M.fresh_cursor()
        a = cur.active
        if a.w is not None:
            SEEK.append(int_term(a.w.entry_index))
        f, k = z3.Int("of"), z3.Int("ok")
        c.add(z3.ForAll([f, k], OFF(f, k) >= 0))
        before = (cur.epoch, cur.cycle, cur.rank, cur.file_order, cur.next_file_position, cur.turn, cur.quantum_used, a.n)
        st = M.src.save_cursor(cur)
        S.prove("save: the cursor is not moved", z3.BoolVal(cur.active is a and before == (
            cur.epoch, cur.cycle, cur.rank, cur.file_order, cur.next_file_position, cur.turn, cur.quantum_used, a.n)) if False else z3.And(
            z3.BoolVal(cur.active is a), *[int_term(x) == int_term(y) for x, y in zip(before[4:], (
                cur.next_file_position, cur.turn, cur.quantum_used, a.n))]))
        if spoil == "numbers":
            for k in ("next_file_position", "turn", "quantum_used"):
                st[k] = INT.fresh(k)
        if spoil == "order":
            st["file_order"] = Order(M.norder, tag=1)
        if spoil == "schema":
            st["schema"] = "another"
        try:
            back = M.src.restore_cursor(st)
        except ValueError:
            S.prove("restore: a saved position is not refused", z3.BoolVal(spoil is not None))
            return
        n = int_term(back.active.n) if isinstance(back.active, WList) else z3.IntVal(len(back.active))
        nfp, turn, used = (int_term(x) for x in (back.next_file_position, back.turn, back.quantum_used))
        S.prove("restore: position in range", z3.And(nfp >= 0, nfp <= M.norder.t, turn >= 0, z3.Or(turn < n, z3.And(n == 0, turn == 0)),
                                                      used >= 0, used < M.q.t, n <= M.streams.t))
        S.prove("restore: the readers opened to find the order are closed", z3.BoolVal(closed == [initial]))
        if spoil == "schema":
            S.prove("restore: another schema is refused", z3.BoolVal(False))
        if spoil:
            return
        S.prove("restore: same position", z3.And(nfp == int_term(cur.next_file_position), turn == int_term(cur.turn),
                                                 used == int_term(cur.quantum_used), n == int_term(a.n)))
        S.prove("restore: same epoch, cycle, rank and order", z3.And(
            int_term(back.epoch) == M.epoch.t, int_term(back.cycle) == M.cycle.t, int_term(back.rank) == M.rank.t,
            z3.BoolVal(back.file_order is M.order)))
        if a.w is not None:
            S.prove("restore: the reader of the watched file is back", z3.BoolVal(isinstance(back.active, WList) and back.active.w is not None))
            S.prove("restore: the watched reader continues where it was saved", same(back.active.w, a.w))
            S.prove("restore: in its slot", back.active.s == a.s)
        elif isinstance(back.active, WList):
            S.prove("restore: no reader is added", z3.BoolVal(back.active.w is None))
        c.completed = True
    S.run(f"save_cursor/restore_cursor[{'subrecords' if sub else 'entries'}, {'raw' if raw else 'captured'}"
          + (f", other {spoil}" if spoil else "") + "]", h)


def batches(S):
    """materialize_batch of one envelope (the loop body carries nothing between envelopes but the list of samples)."""
    m = World().module(MOD)
    for sub, raw in ((True, True), (False, True), (True, False), (False, False)):
        for what in ("right", "wrong"):
            def h(sub=sub, raw=raw, what=what):
                c = ctx()
                M = Model(S, m, sub, raw, False)
                m.io = FakeIo
                out = []
                m.collate_sample_dicts = lambda samples, **kw: out.append((samples, kw)) or "batch"
                f, e, s, cyc = FW, NAT.fresh("entry"), NAT.fresh("sub"), NAT.fresh("cycle")
                aug = NAT.fresh("aug")
                r = Raw(f, e.t)
                base = (e, s) if sub else (e,)
                later = c.decide(cyc.t > 0)
                key = ["sequential", Key(f), "fmt", (cyc, *base) if later else base]
                pay = m.SequentialPayload(r, s if sub else None, aug)
                sid = SymInt(f)
                if what == "wrong":
                    k = 0
                    while k < 5 and not c.decide(c.fresh(B, "next_kind")):
                        k += 1
                    if k == 0:
                        key[0] = "other"
                    elif k == 1:
                        g = NAT.fresh("file")
                        c.add(z3.And(g.t != f, g.t < M.files.t))
                        key[1] = Key(g.t)
                    elif k == 2:
                        key[2] = "other"
                    elif k == 3:
                        g = NAT.fresh("file")
                        c.add(g.t != f)
                        sid = g
                    elif k == 4 and sub:
                        g = NAT.fresh("sub2")
                        c.add(g.t != s.t)
                        pay = m.SequentialPayload(r, g, aug)
                    else:
                        pay = m.SequentialPayload(r, None if sub else s, aug)

                class Env:
                    source_id, record_key, shape_code, payload = sid, tuple(key), 0, pay
                try:
                    got = M.src.materialize_batch([Env])
                except RuntimeError:
                    S.prove("materialize: refuses only an inconsistent envelope", z3.BoolVal(what == "wrong"))
                    return
                S.prove("materialize: an inconsistent envelope is refused", z3.BoolVal(what == "right"))
                (samples, kw), = out
                S.prove("materialize: one sample per envelope, collated", z3.BoolVal(len(samples) == 1 and got == "batch"))
                x = samples[0]
                S.prove("materialize: the sample of that entry, key, subrecord and augmentation epoch", z3.And(
                    x.entry.f == f, x.entry.e == e.t, z3.BoolVal(x.key is Env.record_key), int_term(x.aug) == aug.t,
                    (int_term(x.sub) == s.t) if sub else z3.BoolVal(x.sub is None)))
            S.run(f"materialize_batch[{'subrecords' if sub else 'entries'}, {'raw' if raw else 'captured'}, {what}]", h)


def h_close(S):
    m = World().module(MOD)

    def h():
        M = Model(S, m, True, True, True)
        a = M.fresh_active(True, M.norder.t)
        seen = []
        a.other = lambda t: seen.append(M.fresh_reader(z3.IntVal(5))) or seen[-1]
        w = a.w
        cur = m.SequentialCursor(M.epoch, M.cycle, M.rank, M.order, 0, a, 0, 0)
        m.InterleavedSequentialSource.close_cursor(cur)
        S.prove("close: every reader is closed and dropped", z3.And(
            z3.BoolVal(w.stream.closed and all(r.stream.closed for r in seen)), int_term(a.n) == 0))
    S.run("close_cursor", h)


def prove(S):
    small(S)
    h_close(S)
    batches(S)
    save_restore(S, True, True, True)
    save_restore(S, True, False, False)
    save_restore(S, False, True, True)
    for k in ("numbers", "order", "schema"):
        save_restore(S, True, True, True, k)
    modes = ((True, True, True), (False, False, False))
    if getattr(S, "tier", "quick") == "thorough":
        modes += ((False, True, False), (True, False, False), (True, True, False), (False, False, True))
    for sub, raw, peek in modes:
        next_envelope(S, sub, raw, peek)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
