"""D01 - the streaming shuffle reservoir."""
import z3

from pyvc.engine import Session, ctx, PathEnd
from pyvc.values import (
    SymInt, SymBool, SymList, SymVal, TOpaque, INT, NAT, BOOL, TInt, TTuple, Measure, int_term, to_bool_term, bound_var,
)
from pyvc.load import World, LoopSpec

MOD = "dataset.shuffle"
ITEM = TOpaque("Item")
e0 = z3.Const("any_item", ITEM.sorts[0])
size_of = z3.Function("size_of", ITEM.sorts[0], z3.IntSort())
COUNT = Measure("count", lambda t: z3.If(t == e0, z3.IntVal(1), z3.IntVal(0)))
SUM = Measure("sum", lambda t: t)
SUM.is_sum = True
SUM_ANY = Measure("sum", lambda t: t, nonneg=False)
SUM_ANY.is_sum = True


def slots_list(hint="slots"):
    return SymList.fresh(ITEM, hint, [COUNT])


def sizes_list(hint="sizes"):
    return SymList.fresh(NAT, hint, [SUM])


def cnt(x):
    """Occurrences of the arbitrary item in a (symbolic or concrete) sequence."""
    if isinstance(x, SymList):
        return x.mvals["count"]
    return z3.Sum([z3.If(v.t == e0, 1, 0) for v in x]) if len(x) else z3.IntVal(0)


def inv(r, counter_slack=True):
    n = r._slots.n
    k = z3.Int("k_inv")
    yield "slots and sizes are parallel", r._slots.n == r._slot_sizes.n
    yield "occupancy within capacity", n <= int_term(r.capacity)
    yield "resident bytes are the sum of the sizes", int_term(r._resident_bytes) == r._slot_sizes.mvals["sum"]
    if r.max_bytes is not None:
        yield "resident bytes within the limit", int_term(r._resident_bytes) <= int_term(r.max_bytes)
    yield "sizes belong to their items", z3.ForAll([k], z3.Implies(
        z3.And(k >= 0, k < n),
        z3.And(r._slot_sizes.arrs[0][r._slot_sizes.lo + k] == size_of(r._slots.arrs[0][r._slots.lo + k]),
               r._slot_sizes.arrs[0][r._slot_sizes.lo + k] >= 0)))
    yield "exactly-once ledger", int_term(r._offered) == int_term(r._emitted) + n
    yield "counters are natural", z3.And(int_term(r._emitted) >= 0, int_term(r._rng_counter) >= 0,
                                         int_term(r._rng_counter) <= 1 << 63)


def peaks(r):
    yield "peak occupancy", z3.And(int_term(r._peak_occupancy) >= r._slots.n,
                                   int_term(r._peak_occupancy) <= int_term(r.capacity))
    yield "peak bytes", int_term(r._peak_resident_bytes) >= int_term(r._resident_bytes)
    yield "closed means empty", z3.Implies(to_bool_term(r._closed), r._slots.n == 0)


def full(r):
    yield from inv(r)
    yield from peaks(r)


def fresh_reservoir(mod, limited):
    c = ctx()
    r = mod.StreamingShuffleReservoir.__new__(mod.StreamingShuffleReservoir)
    r.capacity = TInt(lo=1).fresh("capacity")
    r.max_bytes = TInt(lo=1).fresh("max_bytes") if limited else None
    r.seed = INT.fresh("seed")
    r.epoch = NAT.fresh("epoch")
    r.stream_key = ("stream",)
    r._slots = slots_list()
    r._slot_sizes = sizes_list()
    r._resident_bytes = INT.fresh("resident")
    r._rng_base = TInt(bits=64).fresh("rng_base")
    r._rng_counter = NAT.fresh("counter")
    r._offered, r._emitted = NAT.fresh("offered"), NAT.fresh("emitted")
    r._peak_occupancy, r._peak_resident_bytes = NAT.fresh("peak_n"), NAT.fresh("peak_b")
    r._closed = BOOL.fresh("closed")
    r._state_cache = "stale"
    for _, f in full(r):
        c.add(f)
    for n in ("capacity", "_rng_counter", "_offered", "_resident_bytes"):
        c.inputs[n] = getattr(r, n).t
    c.inputs["len"] = r._slots.n
    return r


def check(S, where, items):
    for label, f in items:
        S.prove(f"{where}: {label}", f)


def evict_heap(L):
    r = L.self
    return [("list", r._slots), ("list", r._slot_sizes), ("attr", r, "_resident_bytes", INT),
            ("attr", r, "_emitted", INT), ("attr", r, "_rng_counter", INT)]


def out_list(v):
    return SymList.fresh(ITEM, "out", [COUNT])


def record(L, old):
    old.count = cnt(L.self._slots)
    old.offered = int_term(L.self._offered)
    old.resident = int_term(L.self._resident_bytes)
    old.n_out = int_term(len(L.emitted)) if not isinstance(L.emitted, SymList) else L.emitted.n


def offer_inv(L):
    r = L.self
    yield from inv(r)
    yield "conservation", cnt(r._slots) + cnt(L.emitted) == L.old.count


def many_inv(L):
    r = L.self
    yield from inv(r)
    yield "conservation", cnt(r._slots) + cnt(L.emitted) == L.old.count + int_term(L.done("count"))
    yield "counted", int_term(r._offered) == L.old.offered + L.i.t
    yield "local peaks", z3.And(
        int_term(L.peak_occupancy) >= r._slots.n, int_term(L.peak_occupancy) <= int_term(r.capacity),
        int_term(L.peak_resident_bytes) >= int_term(r._resident_bytes))
    yield "still open", z3.Not(to_bool_term(r._closed))


def many_inner(L):
    r = L.self
    yield from inv(r)
    yield "conservation", cnt(r._slots) + cnt(L.emitted) == L.old.count
    yield "counted", int_term(r._offered) == L.old.offered


def record_inner(L, old):
    old.count = cnt(L.self._slots) + cnt(L.emitted)
    old.offered = int_term(L.self._offered)


def validate_inv(L):
    r = L.self
    k = z3.Int("k_val")
    src = L.src
    a = src.arrs[1][src.lo + k]
    ok = a >= 0
    if r.max_bytes is not None:
        ok = z3.And(ok, a <= int_term(r.max_bytes))
    yield "sizes seen so far are valid", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L.i.t), ok))


def zero_inv(L):
    r = L.self
    for label, f in inv(r):
        if label != "exactly-once ledger":
            yield label, f
    yield "resident bytes do not grow", int_term(r._resident_bytes) <= L.old.resident
    yield "ledger", L.old.offered + L.i.t == int_term(r._emitted) + r._slots.n
    yield "conservation", cnt(r._slots) + cnt(L.emitted) == L.old.count + int_term(L.done("count"))


def many_heap(L):
    return evict_heap(L) + [("attr", L.self, "_offered", INT)]


def build():
    q = f"{MOD}:StreamingShuffleReservoir."
    loops = {
        q + "_random_slot#0": LoopSpec(
            inv=lambda L: [("counter is natural", z3.And(int_term(L.self._rng_counter) >= L.old.c,
                                                         int_term(L.self._rng_counter) >= 0,
                                                         int_term(L.self._rng_counter) <= 1 << 63))],
            init=lambda L, old: setattr(old, "c", int_term(L.self._rng_counter)),
            havoc=lambda L: [("attr", L.self, "_rng_counter", INT)]),
        q + "offer#0": LoopSpec(
            inv=offer_inv, init=record, types={"emitted": out_list}, havoc=evict_heap),
        q + "offer_many#0": LoopSpec(inv=validate_inv),
        q + "offer_many#1": LoopSpec(inv=many_inv, init=record, types={"emitted": out_list},
                                     havoc=many_heap),
        q + "offer_many#2": LoopSpec(inv=many_inner, init=record_inner, types={"emitted": out_list},
                                     havoc=evict_heap),
        q + "offer_zero_sized#0": LoopSpec(inv=zero_inv, init=record, types={"emitted": out_list},
                                           havoc=evict_heap),
    }
    return World(loops=loops)


def stub_random_slot(S):
    def f(self):
        c = ctx()
        S.prove("caller of _random_slot: the reservoir is not empty", self._slots.n > 0)
        old = int_term(self._rng_counter)
        self._rng_counter = INT.fresh("counter")
        c.add(z3.And(self._rng_counter.t >= old, self._rng_counter.t >= 0, self._rng_counter.t <= 1 << 63))
        i = INT.fresh("slot")
        c.add(z3.And(i.t >= 0, i.t < self._slots.n))
        return i
    return f


def stub_permutation(record):
    def deterministic_permutation(length, root_seed, domain, key):
        """Assumed here, proved under D02: a permutation of range(length)."""
        c = ctx()
        order = SymList.fresh(INT, "order")
        k, l = z3.Ints("k_p l_p")
        c.add(order.n == int_term(length))
        c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < order.n), z3.And(
            order.arrs[0][k] >= 0, order.arrs[0][k] < order.n)), patterns=[order.arrs[0][k]]))
        c.add(z3.ForAll([k, l], z3.Implies(
            z3.And(k >= 0, l >= 0, k < order.n, l < order.n, k != l),
            order.arrs[0][k] != order.arrs[0][l]), patterns=[z3.MultiPattern(order.arrs[0][k], order.arrs[0][l])]))
        record["order"] = order
        return order
    return deterministic_permutation


def may_raise(f, *allowed):
    def g():
        try:
            f()
        except allowed:
            ctx().completed = True
    return g


def prove(S):
    w = build()
    m = w.module(MOD)
    C = m.StreamingShuffleReservoir
    rec = {}
    q = "StreamingShuffleReservoir."

    def h_random():
        r = fresh_reservoir(m, False)
        ctx().add(r._slots.n > 0)
        n = r._slots.n
        i = C._random_slot(r)
        S.prove("_random_slot: the result is an occupied slot", z3.And(int_term(i) >= 0, int_term(i) < n))
        check(S, "_random_slot", full(r))
    S.run(q + "_random_slot", may_raise(h_random, ValueError))
    if "_random_slot" in C.__dict__:
        C._random_slot = stub_random_slot(S)
    m.deterministic_permutation = stub_permutation(rec)

    def h_init():
        seed, epoch, cap = INT.fresh("seed"), INT.fresh("epoch"), INT.fresh("cap")
        m.rng_u64 = lambda *a, **k: TInt(bits=64).fresh("base")
        lim = INT.fresh("lim")
        try:
            r = C(cap, seed=seed, epoch=epoch, stream_key=("k",), max_bytes=lim)
        except ValueError:
            S.prove("__init__: refuses only bad bounds", z3.Or(cap.t <= 0, lim.t <= 0, epoch.t < 0))
            return
        S.prove("__init__: bounds recorded", z3.And(int_term(r.capacity) == cap.t, cap.t > 0,
                                                   int_term(r.max_bytes) == lim.t))
        S.prove("__init__: starts empty and open", z3.And(
            len(r._slots) == 0, len(r._slot_sizes) == 0, int_term(r._offered) == 0,
            int_term(r._emitted) == 0, int_term(r._resident_bytes) == 0, int_term(r._rng_counter) == 0,
            z3.BoolVal(r._closed is False)))
    S.run(q + "__init__", h_init)

    def prior(r):
        return cnt(r._slots), int_term(r._offered), to_bool_term(r._closed), r._slots.n

    for limited in (False, True):
        def h_offer():
            r = fresh_reservoir(m, limited)
            c = ctx()
            item = ITEM.fresh("item")
            size = INT.fresh("size")
            c.inputs["size_bytes"] = size.t
            c.add(size.t == size_of(item.t))
            before, off0, closed, n0 = prior(r)
            try:
                out = C.offer(r, item, size_bytes=size)
            except (RuntimeError, ValueError):
                bad = z3.Or(closed, size.t < 0)
                if limited:
                    bad = z3.Or(bad, size.t > int_term(r.max_bytes))
                S.prove("offer: raises only on a bad call", bad)
                S.prove("offer: a rejected offer changes nothing",
                        z3.And(cnt(r._slots) == before, int_term(r._offered) == off0))
                return
            S.prove("offer: conservation", cnt(r._slots) + cnt(out) == before + z3.If(item.t == e0, 1, 0))
            S.prove("offer: counted once", int_term(r._offered) == off0 + 1)
            S.prove("offer: the cached state is dropped", z3.BoolVal(r._state_cache is None))
            check(S, "offer", full(r))
        S.run(q + "offer", h_offer)

        def h_many():
            r = fresh_reservoir(m, limited)
            c = ctx()
            pairs = SymList.fresh(TTuple(ITEM, INT), "items",
                                  [Measure("count", lambda a, b: COUNT.f(a))], tuple)
            k = z3.Int("k_pairs")
            c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < pairs.n),
                                            pairs.arrs[1][k] == size_of(pairs.arrs[0][k]))))
            before, off0, closed, n0 = prior(r)
            try:
                out = C.offer_many(r, pairs)
            except (RuntimeError, ValueError):
                S.prove("offer_many: a rejected chunk changes nothing", z3.And(
                    cnt(r._slots) == before, int_term(r._offered) == off0, r._slots.n == n0))
                return
            S.prove("offer_many: conservation",
                    cnt(r._slots) + cnt(out) == before + pairs.mvals["count"])
            S.prove("offer_many: every item counted", int_term(r._offered) == off0 + pairs.n)
            S.prove("offer_many: the cached state is dropped",
                    z3.Implies(pairs.n > 0, z3.BoolVal(r._state_cache is None)))
            check(S, "offer_many", full(r))
        S.run(q + "offer_many", h_many)

        def h_zero():
            r = fresh_reservoir(m, limited)
            c = ctx()
            items = SymList.fresh(ITEM, "items", [COUNT], tuple)
            k = z3.Int("k_items")
            c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < items.n), size_of(items.arrs[0][k]) == 0)))
            before, off0, closed, n0 = prior(r)
            try:
                out = C.offer_zero_sized(r, items)
            except RuntimeError:
                S.prove("offer_zero_sized: raises only when drained", closed)
                S.prove("offer_zero_sized: a rejected chunk changes nothing", z3.And(
                    cnt(r._slots) == before, int_term(r._offered) == off0))
                return
            S.prove("offer_zero_sized: conservation",
                    cnt(r._slots) + cnt(out) == before + items.mvals["count"])
            S.prove("offer_zero_sized: every item counted", int_term(r._offered) == off0 + items.n)
            S.prove("offer_zero_sized: the cached state is dropped",
                    z3.Implies(items.n > 0, z3.BoolVal(r._state_cache is None)))
            check(S, "offer_zero_sized", full(r))
        S.run(q + "offer_zero_sized", h_zero)

        def h_drain():
            r = fresh_reservoir(m, limited)
            c = ctx()
            n, arr, lo = r._slots.n, r._slots.arrs[0], r._slots.lo
            em0, closed = int_term(r._emitted), to_bool_term(r._closed)
            rec.pop("order", None)
            out = C.drain(r)
            check(S, "drain", full(r))
            S.prove("drain: closed and empty", z3.And(to_bool_term(r._closed), r._slots.n == 0))
            if "order" not in rec:
                S.prove("drain: empty only when already drained", z3.And(closed, len(out) == 0))
                return
            order = rec["order"]
            S.prove("drain: one output per resident item", z3.And(out.n == n, int_term(r._emitted) == em0 + n))
            k = z3.Int("k_drain")
            S.prove("drain: the output is the residents rearranged by a permutation", z3.ForAll(
                [k], z3.Implies(z3.And(k >= 0, k < n),
                                out.arrs[0][out.lo + k] == arr[lo + order.arrs[0][k]])))
            S.prove("drain: the cached state is dropped", z3.BoolVal(r._state_cache is None))
        S.run(q + "drain", h_drain)

        def same_fields(a, b, k=None):
            k = z3.Int("k_same")

            def seq(x, y):
                return z3.And(x.n == y.n, z3.ForAll([k], z3.Implies(
                    z3.And(k >= 0, k < x.n), x.arrs[0][x.lo + k] == y.arrs[0][y.lo + k])))
            yield "slots", seq(a._slots, b._slots)
            yield "slot sizes", seq(a._slot_sizes, b._slot_sizes)
            for n in ("_resident_bytes", "_rng_counter", "_offered", "_emitted", "_peak_occupancy",
                      "_peak_resident_bytes"):
                yield n, int_term(getattr(a, n)) == int_term(getattr(b, n))
            yield "closed", to_bool_term(a._closed) == to_bool_term(b._closed)

        def h_round():
            r = fresh_reservoir(m, limited)
            c = ctx()
            c.add(int_term(r._rng_counter) < (1 << 63))
            r._state_cache = None
            st = C.state(r)
            t = C.__new__(C)
            for a in ("capacity", "max_bytes", "seed", "epoch", "stream_key", "_rng_base"):
                setattr(t, a, getattr(r, a))
            for a in ("_slots", "_slot_sizes"):
                setattr(t, a, [])
            for a in ("_resident_bytes", "_rng_counter", "_offered", "_emitted", "_peak_occupancy",
                      "_peak_resident_bytes"):
                setattr(t, a, 0)
            t._closed, t._state_cache = False, None
            try:
                C.restore(t, st)
            except ValueError as e:
                S.prove("restore: accepts every reachable state", z3.BoolVal(False))
                return
            for label, f in same_fields(r, t):
                S.prove(f"restore(state()): identical {label}", f)
            S.prove("restore: later offers do not write into the snapshot",
                    z3.BoolVal(t._slots is not st.slots and t._slot_sizes is not st.slot_sizes))
            S.prove("state: snapshot is not the live list",
                    z3.BoolVal(r._slots is not st.slots and r._slot_sizes is not st.slot_sizes))
        S.run(q + "state/restore", h_round)

        def h_restore():
            """restore accepts only states that satisfy the invariant."""
            r = fresh_reservoir(m, limited)
            c = ctx()
            st = m.ReservoirState(
                algorithm=m.RESERVOIR_ALGORITHM, seed=INT.fresh("s"), epoch=INT.fresh("e"),
                stream_key=r.stream_key, capacity=INT.fresh("c"),
                max_bytes=INT.fresh("mb") if limited else None,
                slots=SymList.fresh(ITEM, "st_slots", [COUNT], tuple),
                slot_sizes=SymList.fresh(INT, "st_sizes", [SUM_ANY], tuple),
                resident_bytes=INT.fresh("rb"), rng_counter=INT.fresh("rc"), offered=INT.fresh("of"),
                emitted=INT.fresh("em"), peak_occupancy=INT.fresh("po"),
                peak_resident_bytes=INT.fresh("pb"), closed=BOOL.fresh("cl"))
            n0, c0 = r._slots.n, cnt(r._slots)
            try:
                C.restore(r, st)
            except ValueError:
                S.prove("restore: a refused state leaves the reservoir alone",
                        z3.And(r._slots.n == n0, cnt(r._slots) == c0))
                return
            for label, f in full(r):
                if label != "sizes belong to their items":
                    S.prove(f"restore: {label}", f)
            S.prove("restore: same configuration", z3.And(
                int_term(st.seed) == int_term(r.seed), int_term(st.epoch) == int_term(r.epoch),
                int_term(st.capacity) == int_term(r.capacity)))
        S.run(q + "restore", h_restore)


TRUSTED = ["deterministic_permutation returns a permutation (its contract is discharged under D02)",
           "rng_u64 returns a 64-bit value (hash function not modelled)"]

if __name__ == "__main__":
    from specs.common import main
    main(prove)
