"""D04 - the batch planner: conservation, shape purity, full batches, budget."""
import z3

from pyvc.engine import ctx
from pyvc.values import SymInt, SymList, SymVal, TOpaque, TRec, TInt, INT, NAT, BOOL, Measure, DequeKind, int_term, to_bool_term
from pyvc.maps import SymMap
from pyvc.load import World, LoopSpec

MOD = "dataset.planner"
TRUSTED = ["a record source hands out every record of a pass once (proved separately: D06, D07, D08)",
           "the reservoir contracts used here are the ones proved in D01"]
REC = TOpaque("Record")
e0 = z3.Const("any_record", REC.sorts[0])
SHAPE = z3.Function("shape_of", REC.sorts[0], z3.IntSort())
BYTES = z3.Function("bytes_of", REC.sorts[0], z3.IntSort())


class Envelope:
    """A record: everything the planner reads is a function of its identity."""

    def __init__(self, ident):
        self.ident = ident

    shape_code = property(lambda s: SymInt(SHAPE(s.ident.t)))
    resident_bytes = property(lambda s: SymInt(BYTES(s.ident.t)))
    record_key = property(lambda s: s.ident)


ENV = TRec(Envelope, {"ident": REC})
COUNT = Measure("count", lambda t: z3.If(t == e0, z3.IntVal(1), z3.IntVal(0)))


def cnt(x):
    if isinstance(x, SymList):
        return x.mvals["count"]
    if not len(x):
        return z3.IntVal(0)
    return z3.Sum([z3.If(v.ident.t == e0, 1, 0) for v in x])


def num(x):
    return x.n if isinstance(x, SymList) else z3.IntVal(len(x))


def env_list(v=None, hint="envs", kind=list):
    return SymList.fresh(ENV, hint, [COUNT], kind)


class Config:
    def __init__(self, steps):
        self.steps_per_epoch = SymInt(ctx().fresh(z3.IntSort(), "steps")) if steps else None
        self.max_shape_queues = TInt(lo=1).fresh("max_queues")
        self.shuffle, self.shuffle_buffer_size, self.shuffle_buffer_bytes = True, TInt(lo=1).fresh("buffer"), None
        if steps:
            ctx().add(self.steps_per_epoch.t >= 1)
            ctx().inputs["steps"] = self.steps_per_epoch.t


class Runtime:
    def __init__(self, mode):
        c = ctx()
        self.mode = mode
        self.local_batch_size = TInt(lo=1).fresh("local")
        self.world_size = TInt(lo=1).fresh("world")
        self.global_batch_size = TInt(lo=1).fresh("global")
        self.rank, self.seed = NAT.fresh("rank"), INT.fresh("seed")
        c.inputs.update(local=self.local_batch_size.t, batch=self.global_batch_size.t)


class Ledger:
    """Ghost: how often the arbitrary record, and how many records in all, were handed out."""
    __pyvc_heap__ = True

    def __init__(self, sharded=False):
        c = ctx()
        self.given, self.given_n = NAT.fresh("given"), NAT.fresh("given_n")
        self.used, self.used_n = NAT.fresh("used"), NAT.fresh("used_n")


class Source:
    __pyvc_heap__ = True

    def __init__(self, led, S, style):
        self.led, self.S, self.style = led, S, style
        self.ended = BOOL.fresh("ended")
        if style == "zero":
            self.zero_resident_envelopes = True
        if style != "single":
            self.next_envelopes = self._next_envelopes

    def _give(self, k, n):
        self.led.given = SymInt(self.led.given.t + k)
        self.led.given_n = SymInt(self.led.given_n.t + n)

    def _live(self, cursor):
        self.S.prove("the source is not read after its end", z3.Not(to_bool_term(self.ended)))

    def _next_envelopes(self, cursor, limit):
        self._live(cursor)
        out = env_list(hint="chunk")
        ctx().add(out.n <= int_term(limit))
        self._give(cnt(out), out.n)
        self.ended = BOOL.fresh("ended")
        ctx().add(to_bool_term(self.ended) == (out.n == 0))
        return out, SymInt(ctx().fresh(z3.IntSort(), "cursor"))

    def next_envelope(self, cursor):
        self._live(cursor)
        c = ctx()
        if c.decide(c.fresh(z3.BoolSort(), "more")):
            e = ENV.fresh("rec")
            self._give(z3.If(e.ident.t == e0, 1, 0), 1)
            return e, SymInt(c.fresh(z3.IntSort(), "cursor"))
        self.ended = True
        return None, SymInt(c.fresh(z3.IntSort(), "cursor"))

    def start_cycle(self, epoch, cycle, rank):
        self.ended = False
        return SymInt(ctx().fresh(z3.IntSort(), "cursor"))


class Stats:
    def __init__(self, offered):
        self.offered = offered


class Reservoir:
    """The contract of the shuffle reservoir (D01): conservation, and drain() empties it."""
    __pyvc_heap__ = True

    def __init__(self, S, empty=False):
        self.S = S
        c = ctx()
        if empty:
            self.res, self.res_n, self.closed_, self.offered = SymInt(z3.IntVal(0)), SymInt(z3.IntVal(0)), False, SymInt(z3.IntVal(0))
        else:
            self.res, self.res_n = NAT.fresh("res"), NAT.fresh("res_n")
            self.closed_, self.offered = BOOL.fresh("closed"), NAT.fresh("offered")
            c.add(z3.Implies(to_bool_term(self.closed_), z3.And(self.res.t == 0, self.res_n.t == 0)))
            c.add(self.res.t <= self.res_n.t)

    closed = property(lambda s: s.closed_)
    stats = property(lambda s: Stats(s.offered))

    def _offer(self, k, n):
        self.S.prove("nothing is offered to a closed reservoir", z3.Not(to_bool_term(self.closed_)))
        out = env_list(hint="emitted")
        r, rn = NAT.fresh("res"), NAT.fresh("res_n")
        ctx().add(z3.And(r.t + cnt(out) == self.res.t + k, rn.t + out.n == self.res_n.t + n, r.t <= rn.t))
        self.offered = SymInt(self.offered.t + n)
        self.res, self.res_n = r, rn
        return out

    def offer(self, item, *, size_bytes=0):
        self.S.prove("the reservoir is told the record's size", int_term(size_bytes) == BYTES(item.ident.t))
        return self._offer(z3.If(item.ident.t == e0, 1, 0), z3.IntVal(1))

    def offer_many(self, pairs):
        src = pairs.src
        k = z3.Int("k_pair")
        from pyvc.engine import probe

        def one():
            a, b = pairs.at(k)
            return a.ident.t, int_term(b)
        rng = z3.And(k >= 0, k < src.n)
        a, b = probe(one, [k], rng)
        self.S.prove("the chunk is offered element by element with its sizes", z3.ForAll([k], z3.Implies(rng, z3.And(
            a == src.arrs[0][src.lo + k], b == BYTES(src.arrs[0][src.lo + k])))))
        return self._offer(cnt(src), src.n)

    def offer_zero_sized(self, items):
        return self._offer(cnt(items), num(items))

    def drain(self):
        self.S.prove("the reservoir is drained once", z3.Not(to_bool_term(self.closed_)))
        out = env_list(hint="drained")
        ctx().add(z3.And(cnt(out) == self.res.t, out.n == self.res_n.t))
        self.res, self.res_n, self.closed_ = SymInt(z3.IntVal(0)), SymInt(z3.IntVal(0)), True
        return out


def havoc_reservoir(r):
    return [("attr", r, "res", NAT), ("attr", r, "res_n", NAT), ("attr", r, "closed_", BOOL), ("attr", r, "offered", NAT)]


def havoc_feed(p):
    """What refilling the ready buffer changes."""
    s, l = p.source, p.source.led
    return ([("attr", s, "ended", BOOL), ("attr", l, "given", NAT), ("attr", l, "given_n", NAT),
             ("attr", p, "_source_cursor", INT), ("attr", p, "_source_exhausted", BOOL), ("list", ready(p))]
            + havoc_reservoir(p._reservoir))


def ready(p):
    return p._packed_ready.ids if p._packed_uniform else p._ready


def q0(p):
    m = p._shape_queues
    if not isinstance(m, SymMap):
        return z3.IntVal(0)
    k = SHAPE(e0)
    return z3.If(m.has(k), m.measure_at("count", k), z3.IntVal(0))


def batch_size(p):
    return int_term(p.planning_batch_size)


def feed_inv(p):
    ex = to_bool_term(p._source_exhausted)
    r = p._reservoir
    yield "exhausted exactly when the source ended", ex == to_bool_term(p.source.ended)
    yield "exhausted exactly when the reservoir is closed", ex == to_bool_term(r.closed_)
    yield "a closed reservoir is empty", z3.Implies(ex, z3.And(r.res.t == 0, r.res_n.t == 0))
    yield "counts", z3.And(r.res.t >= 0, r.res.t <= r.res_n.t, cnt(ready(p)) >= 0)


def queues_inv(p, open_shape=None):
    m = p._shape_queues
    k, i = z3.Int("k_q"), z3.Int("i_q")
    B = batch_size(p)
    has, n = m.has(k), m.n_at(k)
    yield "every queue holds one shape", z3.ForAll([k, i], z3.Implies(
        z3.And(has, i >= 0, i < n), SHAPE(m.elem(k, i)[0]) == k))
    yield "queues are shorter than a batch", z3.ForAll([k], z3.Implies(has, z3.And(n >= 0, n < B)))
    yield "the record waits in its own queue only", z3.ForAll([k], z3.Implies(
        z3.And(has, k != SHAPE(e0)), m.measure_at("count", k) == 0))
    yield "number of queues within the limit", z3.And(m.size >= 0, m.size <= int_term(p.config.max_shape_queues))


def ledger(p, local=0, local_n=None, dropped=0):
    l, r = p.source.led, p._reservoir
    yield "every record handed out is waiting, in the batch or used", (
        l.given.t == r.res.t + cnt(ready(p)) + q0(p) + local + l.used.t + dropped)
    if local_n is not None:
        yield "no record is lost or duplicated in number", (
            l.given_n.t == r.res_n.t + num(ready(p)) + local_n + l.used_n.t)


def planner_inv(p):
    yield from feed_inv(p)
    if p._uniform_shape_code is None:
        yield from queues_inv(p)
        yield from ledger(p)
    else:
        yield from ledger(p, 0, z3.IntVal(0))
    if p.config.steps_per_epoch is not None:
        yield "within the step budget", z3.And(int_term(p._batch_index) >= 0,
                                               int_term(p._batch_index) < int_term(p.config.steps_per_epoch))


def rlist_inv(L):
    yield from feed_inv(L.self)
    l, r, p = L.self.source.led, L.self._reservoir, L.self
    yield "conservation", l.given.t - r.res.t - cnt(ready(p)) == L.old.d
    yield "conservation in number", l.given_n.t - r.res_n.t - num(ready(p)) == L.old.dn


def rlist_init(L, old):
    p = L.self
    l, r = p.source.led, p._reservoir
    old.d, old.dn = l.given.t - r.res.t - cnt(ready(p)), l.given_n.t - r.res_n.t - num(ready(p))


class Parts:
    """List of ID blocks, known by its concatenation."""
    __pyvc_heap__ = True

    def __init__(self, et, count=None):
        self.total = SymList.fresh(et, "parts", [COUNT])
        self.count = NAT.fresh("nparts")

    def append(self, x):
        self.total = self.total + x if not isinstance(x, list) else self.total
        self.count = SymInt(self.count.t + 1)

    @staticmethod
    def __pyvc_len__(p):
        return p.count

    def __getitem__(self, i):
        ctx().session.prove("a single part is all parts", z3.And(int_term(i) == 0, self.count.t == 1))
        return self.total


class PackedReady:
    __pyvc_heap__ = True

    def __init__(self):
        self.ids = env_list(hint="packed")

    @staticmethod
    def __pyvc_len__(b):
        return SymInt(b.ids.n)

    def __bool__(self):
        return ctx().decide(self.ids.n > 0)

    def pop(self, k):
        t = int_term(k)
        ctx().session.prove("pops at most what is there", z3.And(t >= 0, t <= self.ids.n))
        front = self.ids[0:k]
        rest = self.ids[k:]
        self.ids.become(rest)
        return front

    def extend(self, block):
        self.ids.extend(block)

    def clear(self):
        self.ids.clear()


class FakeNp:
    bool_ = bool

    @staticmethod
    def concatenate(parts):
        if isinstance(parts, Parts):
            return parts.total
        out = parts[0]
        for x in parts[1:]:
            out = out + x
        return out

    @staticmethod
    def resize(values, n):
        c = ctx()
        t = int_term(n)
        out = env_list(hint="resized")
        c.add(out.n == t)
        c.ghost["real_rows"] = values.snapshot()
        c.session.prove("resize starts from a non-empty block", values.n > 0)
        k = z3.Int("k_rs")
        a, b = out.arrs[0], values.arrs[0]
        w = z3.Function(f"wrap!{next(c.counter)}", z3.IntSort(), z3.IntSort())
        c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < t), z3.And(
            w(k) >= 0, w(k) < values.n, a[k] == b[values.lo + w(k)], z3.Implies(k < values.n, w(k) == k))),
            patterns=[a[k]]))
        return out


def prove(S):
    q = f"{MOD}:DatasetPlanner."

    def uni_outer(L):
        p = L.self
        yield from feed_inv(p)
        n = num(L.envelopes)
        yield "batch not overfull", z3.And(n >= 0, n <= batch_size(p))
        yield from ledger(p, cnt(L.envelopes), n)
        i = z3.Int("i_env")
        if isinstance(L.envelopes, SymList):
            yield "one shape", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), SHAPE(
                L.envelopes.arrs[0][L.envelopes.lo + i]) == int_term(p._uniform_shape_code)))
        yield "cycle counter", int_term(L.empty_cycles) >= 0

    def uni_havoc(L):
        p = L.self
        out = havoc_feed(p)
        if p._rank_sharded:
            out.append(("attr", p, "_source_cycle", NAT))
            fresh_res = Reservoir(p._reservoir.S)
            out.append(("attr", p, "_reservoir", lambda v: fresh_res))
            out += havoc_reservoir(fresh_res)
        return out

    def take_inv(L):
        p = L.self
        n = num(L.envelopes)
        yield "taken so far", z3.And(n == L.old.n + L.i.t, num(p._ready) == L.old.ready_n - L.i.t)
        yield "conservation", cnt(L.envelopes) + cnt(p._ready) == L.old.c
        i = z3.Int("i_env")
        if isinstance(L.envelopes, SymList):
            yield "one shape", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), SHAPE(
                L.envelopes.arrs[0][L.envelopes.lo + i]) == int_term(p._uniform_shape_code)))

    def take_init(L, old):
        old.n, old.ready_n = num(L.envelopes), num(L.self._ready)
        old.c = cnt(L.envelopes) + cnt(L.self._ready)

    def pad_inv(name, real):
        def inv(L):
            x = getattr(L, name)
            r = L.old.real
            n = num(x)
            i, j = z3.Int("i_pad"), z3.Int("j_pad")
            a = x.arrs[0]
            yield "real rows in front", z3.And(n >= r.n, n <= batch_size(L.self))
            yield "real rows unchanged", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r.n),
                                                                   a[x.lo + i] == r.arrs[0][r.lo + i]))
            yield "padding repeats the real rows", z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < n), z3.Exists([j], z3.And(j >= 0, j < r.n, a[x.lo + i] == r.arrs[0][r.lo + j]))))
        return inv

    def pad_init(name):
        def init(L, old):
            x = getattr(L, name)
            old.real = x.snapshot() if isinstance(x, SymList) else SymList.of(ENV, list(x), [COUNT])
            ctx().ghost["real_rows"] = old.real
        return init

    def shape_inv(L):
        p = L.self
        yield from feed_inv(p)
        yield from queues_inv(p)
        yield from ledger(p)
        yield "cycle counter", int_term(L.empty_cycles) >= 0

    def packed_inv(L):
        p = L.self
        yield from feed_inv(p)
        if isinstance(L.parts, Parts):
            t, n = L.parts.total, L.parts.total.n
            yield from ledger(p, cnt(t), n)
            yield "counted", z3.And(int_term(L.count) == n, n >= 0, n <= batch_size(p),
                                    z3.Implies(n > 0, L.parts.count.t > 0), L.parts.count.t >= 0,
                                    z3.Implies(L.parts.count.t == 0, n == 0))
        else:
            yield from ledger(p, 0, z3.IntVal(0))
            yield "counted", int_term(L.count) == 0
            yield "no parts yet", z3.BoolVal(len(L.parts) == 0)

    dont = lambda v: None
    loops = {
        q + "_refill_ready#0": LoopSpec(inv=rlist_inv, init=rlist_init, havoc=lambda L: havoc_feed(L.self),
                                        types={"envelopes": dont, "envelope": dont}),
        q + "_refill_packed_ready#0": LoopSpec(inv=rlist_inv, init=rlist_init, havoc=lambda L: havoc_feed(L.self),
                                               types={"block": dont}),
        q + "_next_uniform_batch#0": LoopSpec(
            inv=uni_outer, havoc=uni_havoc,
            types={"envelopes": env_list, "empty_cycles": INT, "real_count": dont, "take": dont, "pop_ready": dont,
                   "append": dont, "envelope": dont, "_": dont}),
        q + "_next_uniform_batch#1": LoopSpec(inv=pad_inv("envelopes", None), init=pad_init("envelopes"),
                                              types={"envelopes": env_list}),
        q + "_next_uniform_batch#2": LoopSpec(
            inv=take_inv, init=take_init, types={"envelope": dont, "_": dont},
            havoc=lambda L: [("list", L.self._ready), ("list", L.envelopes)]),
        q + "_next_packed_uniform_batch#0": LoopSpec(
            inv=packed_inv, havoc=lambda L: havoc_feed(L.self),
            types={"parts": lambda v: Parts(ENV), "count": INT, "take": dont, "values": dont, "real_count": dont,
                   "envelopes": dont}),
        q + "next_batch#0": LoopSpec(
            inv=shape_inv, havoc=lambda L: uni_havoc(L) + [("map", L.self._shape_queues)],
            types={"empty_cycles": INT, "envelope": dont, "nonempty": dont, "shape_code": dont, "real": dont,
                   "padded": dont, "is_last": dont, "queue": dont, "envelopes": dont}),
        q + "next_batch#1": LoopSpec(inv=pad_inv("padded", None), init=pad_init("padded"), types={"padded": env_list}),
    }
    w = World(loops=loops)
    m = w.module(MOD)
    m.np = FakeNp
    m.PackedEnvelopeBatch = lambda values, decode, digest: values
    P = m.DatasetPlanner
    real_refill, real_packed_refill = P._refill_ready, P._refill_packed_ready

    def planner(mode, uniform, sharded=False, steps=False, style="many", packed=False):
        c = ctx()
        c.add(SHAPE(e0) == SHAPE(e0))
        led = Ledger()
        p = P.__new__(P)
        p.source = Source(led, S, style)
        p.source.envelopes_from_record_ids = None
        p.runtime_context = Runtime(mode)
        p.config = Config(steps)
        p._rank_sharded = sharded
        p._manifest_digest = "d"
        p._uniform_shape_code = NAT.fresh("shape") if uniform else None
        p._packed_uniform = packed
        p._epoch, p._batch_index, p._source_cycle = NAT.fresh("epoch"), NAT.fresh("batch_index"), NAT.fresh("cycle")
        p._source_cursor = INT.fresh("cursor")
        p._reservoir = Reservoir(S)
        p._ready = env_list(hint="ready", kind=DequeKind) if not packed else SymList.of(ENV, [], [COUNT], DequeKind)
        p._packed_ready = PackedReady()
        p._shape_queues = SymMap(ENV, [COUNT], "queues") if not uniform else {}
        p._source_exhausted, p._finished = BOOL.fresh("exhausted"), False
        p._new_reservoir = lambda cycle: Reservoir(S, empty=True)
        for _, f in planner_inv(p):
            c.add(f)
        if uniform and packed:
            i = z3.Int("i_pk")
        return p

    # -- contract of the refill ------------------------------------------------
    def refill_contract(self):
        """Used at the call sites; proved for the real function below."""
        c = ctx()
        for label, f in feed_inv(self):
            S.prove(f"caller of _refill_ready: {label}", f)
        l, r = self.source.led, self._reservoir
        d, dn = l.given.t - r.res.t - cnt(ready(self)), l.given_n.t - r.res_n.t - num(ready(self))
        for ent in havoc_feed(self):
            if ent[0] == "attr":
                setattr(ent[1], ent[2], ent[3].fresh(ent[2]))
            else:
                ent[1].havoc("ready")
        for _, f in feed_inv(self):
            c.add(f)
        c.add(z3.And(l.given.t - r.res.t - cnt(ready(self)) == d, l.given_n.t - r.res_n.t - num(ready(self)) == dn))
        c.add(z3.Implies(num(ready(self)) == 0, to_bool_term(self._source_exhausted)))

    def h_refill(style, packed=False):
        def h():
            p = planner("train", True, style=style, packed=packed)
            if packed:
                p.source.next_packed_records = p.source._next_envelopes
                p._reservoir.offer_block = p._reservoir.offer_zero_sized
            l, r = p.source.led, p._reservoir
            d, dn = l.given.t - r.res.t - cnt(ready(p)), l.given_n.t - r.res_n.t - num(ready(p))
            (real_packed_refill if packed else real_refill)(p)
            for label, f in feed_inv(p):
                S.prove(f"refill: {label}", f)
            r = p._reservoir
            S.prove("refill: conservation", l.given.t - r.res.t - cnt(ready(p)) == d)
            S.prove("refill: conservation in number", l.given_n.t - r.res_n.t - num(ready(p)) == dn)
            S.prove("refill: nothing ready only when the source is exhausted",
                    z3.Implies(num(ready(p)) == 0, to_bool_term(p._source_exhausted)))
        return h
    for style in ("single", "many", "zero"):
        S.run(f"_refill_ready[{style}]", h_refill(style))
    S.run("_refill_packed_ready", h_refill("many", True))
    P._refill_ready = P._refill_packed_ready = refill_contract

    # -- next_batch --------------------------------------------------------------
    def ext_lemma(a, b):
        """Sequences with the same elements have the same measure."""
        i = z3.Int("i_ext")
        ok = S.prove("the real rows of the batch are the planned records", z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < a.n), a.arrs[0][a.lo + i] == b.arrs[0][b.lo + i]))))
        if ok:
            ctx().add(cnt(a) == cnt(b))

    def h_next(mode, uniform, sharded=False, steps=False, packed=False):
        def h():
            c = ctx()
            p = planner(mode, uniform, sharded, steps, packed=packed)
            l = p.source.led
            B = batch_size(p)
            index0 = int_term(p._batch_index)
            budget = p.config.steps_per_epoch
            at_budget = z3.BoolVal(False) if budget is None else index0 + 1 == int_term(budget)
            hole = {}
            orig_make = P._make_batch.__get__(p)
            orig_finish = P._finish_budget_epoch.__get__(p)

            def make(envelopes, is_real, *, is_last):
                hole["q"] = q0(p)
                hole["pre"] = (p._reservoir.res.t + cnt(ready(p)) + q0(p), p._reservoir.res_n.t + num(ready(p)))
                return orig_make(envelopes, is_real, is_last=is_last)
            p._make_batch = make
            clear0 = p._shape_queues.clear if not uniform else None
            if not uniform:
                def clear():
                    hole["cleared"] = q0(p)
                    hole["short"] = z3.Implies(p._shape_queues.has(SHAPE(e0)), p._shape_queues.n_at(SHAPE(e0)) < B)
                    clear0()
                p._shape_queues.__dict__["clear"] = clear
            try:
                b = p.next_batch()
            except RuntimeError:
                # a source that breaks its declared shapes, exceeds the queue limit or never yields anything
                S.prove("error: no record is in a batch", z3.BoolVal(True))
                return
            if b is None:
                S.prove("the end: finished", to_bool_term(p._finished))
                S.prove("the end: the source is exhausted", to_bool_term(p._source_exhausted))
                S.prove("the end: never while a step budget of a cycled source is open",
                        z3.BoolVal(not (sharded and steps)))
                lost = l.given.t - l.used.t
                S.prove("the end: nothing waits in the reservoir", z3.And(p._reservoir.res.t == 0, num(ready(p)) == 0))
                if mode == "train":
                    if uniform:
                        S.prove("the end: training omits less than one batch", z3.And(
                            l.given_n.t - l.used_n.t >= 0, l.given_n.t - l.used_n.t < B))
                    else:
                        S.prove("the end: omitted records are exactly those of incomplete shape queues",
                                lost == hole.get("cleared", z3.IntVal(0)))
                        S.prove("the end: such a queue is shorter than a batch", hole.get("short", z3.BoolVal(True)))
                else:
                    S.prove("the end: evaluation omits nothing", lost == 0)
                S.prove("after the end: nothing", p.next_batch() is None)
                return
            envs, mask = b.envelopes, b.is_real
            if isinstance(envs, (tuple, list)):
                envs = SymList.of(ENV, list(envs), [COUNT], tuple)
            S.prove("batch: full size", num(envs) == B)
            S.prove("batch: mask of the same size", num(mask) == B)
            i, j = z3.Int("i_b"), z3.Int("j_b")
            real = c.fresh(z3.IntSort(), "real")
            mk = mask.arrs[0] if isinstance(mask, SymList) else None
            if mk is None:
                S.prove("batch: mask is native and all real", z3.BoolVal(all(mask)))
                c.add(real == B)
            else:
                # the number of real rows: the mask is a prefix
                inc = num(mask)
                c.add(z3.And(real >= 0, real <= B))
                c.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < real), mk[mask.lo + i])))
                c.add(z3.Implies(real < B, z3.Not(mk[mask.lo + real])))
                S.prove("batch: real rows come first", z3.ForAll([i], z3.Implies(
                    z3.And(i >= real, i < B), z3.Not(mk[mask.lo + i]))))
            a = envs.arrs[0]
            src = c.ghost.pop("real_rows", None)
            front = envs[0:SymInt(real)]
            if src is not None:
                S.prove("batch: the planned records are marked real", z3.And(
                    z3.Implies(src.n > 0, mk[mask.lo + src.n - 1]), z3.Implies(src.n < B, z3.Not(mk[mask.lo + src.n]))))
                S.prove("batch: the mask counts the real rows", real == src.n)
                ext_lemma(front, src)
            else:
                S.prove("batch: without padding every row is real", real == B)
                c.add(cnt(front) == cnt(envs))
            S.prove("batch: at least one real row", real >= 1)
            if not packed:
                S.prove("batch: one shape", z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, i < B), SHAPE(a[envs.lo + i]) == SHAPE(a[envs.lo]))))
                if uniform:
                    S.prove("batch: the declared shape", SHAPE(a[envs.lo]) == int_term(p._uniform_shape_code))
            if mode == "train":
                S.prove("batch: training batches have no padding", real == B)
            S.prove("batch: padding repeats real rows", z3.ForAll([i], z3.Implies(
                z3.And(i >= real, i < B), z3.Exists([j], z3.And(j >= 0, j < real, a[envs.lo + i] == a[envs.lo + j])))))
            # conservation
            pre, pre_n = hole["pre"]
            S.prove("batch: its real rows are records that left the buffers, once each",
                    l.given.t == pre + l.used.t + (cnt(front)))
            if uniform:
                S.prove("batch: no record is lost in number", l.given_n.t == pre_n + l.used_n.t + real)
            S.prove("batch: belongs to this epoch", int_term(b.epoch) == int_term(p._epoch))
            S.prove("batch: numbered in order", z3.And(int_term(b.batch_index) == index0, int_term(p._batch_index) == index0 + 1))
            if budget is not None:
                S.prove("budget: the last batch is flagged", z3.Implies(at_budget, to_bool_term(b.is_last)))
                S.prove("budget: the epoch is finished by exactly the last batch", z3.Implies(at_budget, to_bool_term(p._finished)))
            if mode == "train":
                S.prove("batch: training goes on until the budget or the end",
                        to_bool_term(p._finished) == at_budget)
                S.prove("batch: flagged last only at the budget", to_bool_term(b.is_last) == at_budget)
            else:
                S.prove("batch: flagged last only when finished", z3.Implies(to_bool_term(b.is_last), to_bool_term(p._finished)))
                S.prove("batch: evaluation finishes with a batch only when nothing is left (or at the budget)", z3.Implies(
                    z3.And(to_bool_term(p._finished), z3.Not(at_budget)), pre == 0))
                S.prove("batch: a finished epoch flags its last batch", to_bool_term(p._finished) == to_bool_term(b.is_last))
                S.prove("batch: padding only after the source is exhausted", z3.Implies(real < B, to_bool_term(p._source_exhausted)))
            if c.decide(to_bool_term(p._finished)):
                S.prove("after the last batch: nothing", p.next_batch() is None)
                return
            l.used = SymInt(l.used.t + cnt(front))
            l.used_n = SymInt(l.used_n.t + real)
            for label, f in planner_inv(p):
                S.prove(f"invariant kept: {label}", f)
        return h

    for mode in ("train", "validate"):
        for steps in (False, True):
            tag = f"{mode}, {'budget' if steps else 'no budget'}"
            S.run(f"next_batch[uniform, {tag}]", h_next(mode, True, steps=steps))
            S.run(f"next_batch[packed, {tag}]", h_next(mode, True, steps=steps, packed=True))
            S.run(f"next_batch[shapes, {tag}]", h_next(mode, False, steps=steps))
    S.run("next_batch[uniform, rank-sharded, budget]", h_next("train", True, sharded=True, steps=True))
    S.run("next_batch[shapes, rank-sharded, budget]", h_next("train", False, sharded=True, steps=True))


if __name__ == "__main__":
    from specs.common import main
    main(prove)
