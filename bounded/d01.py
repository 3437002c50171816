"""D01, executable contracts on the real reservoirs (bounded)."""
from collections import Counter

from .harness import require
from . import cpp


class Tracked:
    """The real reservoir with the ghost state of the contract."""

    def __init__(self, res, capacity, max_bytes, size_of):
        self.r, self.capacity, self.max_bytes, self.size_of = res, capacity, max_bytes, size_of
        self.inside, self.out, self.offered = Counter(), [], 0
        self.peak_n = self.peak_b = 0

    def took(self, items, emitted, drained=False):
        self.offered += len(items)
        self.inside.update(items)
        for e in emitted:
            require(self.inside[e] > 0, "an item came out that was not inside")
            self.inside[e] -= 1
            self.out.append(e)
        self.check()

    def check(self):
        r = self.r
        n = sum(self.inside.values())
        require(len(r) == n, "occupancy differs from offered minus emitted", got=len(r), want=n)
        require(n <= self.capacity, "capacity exceeded")
        b = sum(self.size_of(i) * c for i, c in self.inside.items())
        if hasattr(r, "resident_bytes"):
            require(r.resident_bytes == b, "resident bytes differ from the sum of resident sizes",
                    got=r.resident_bytes, want=b)
        if self.max_bytes is not None:
            require(b <= self.max_bytes, "byte limit exceeded")
        s = r.stats
        require(s.offered == self.offered and s.emitted == len(self.out), "ledger differs",
                stats=repr(s))
        require(n <= s.peak_occupancy <= self.capacity, "peak occupancy is inconsistent")


def run(H):
    cpp.build(H, "dataset_planner_cpp")
    import numpy as np
    from dataset.shuffle import StreamingShuffleReservoir as R
    from dataset.packed import (PackedUInt64ShuffleReservoir as P, PackedRecordBlock,
                                PackedUInt64ReadyBuffer)
    rng = H.rng
    H.bound("histories", f"{H.scale(400, 6000)} random operation histories of up to 120 items")

    def history(i):
        cap = rng.choice([1, 2, 3, 5, 8, 17])
        lim = rng.choice([None, None, 1, 7, 20])
        seed, epoch = rng.randrange(-5, 1 << 40), rng.randrange(4)
        key = rng.choice([(), ("a",), ("s", 3)])
        n = rng.choice([0, 1, cap, cap + 1, rng.randrange(120)])
        items = [rng.randrange(max(1, n // 2 + 1)) if rng.random() < .2 else 1000 + j for j in range(n)]
        zero = lim is None and rng.random() < .4
        smax = 6 if lim is None else lim
        sizes = {it: 0 if zero else rng.randrange(smax + 1) for it in items}
        so = sizes.__getitem__
        ops, j = [], 0
        while j < n:
            k = rng.choice([1, 1, 2, 5, 11])
            ops.append((rng.choice(["one", "many"] + (["zero"] if zero else [])), items[j:j + k]))
            j += k
        info = dict(capacity=cap, max_bytes=lim, seed=seed, epoch=epoch, key=key, ops=ops, sizes=sizes)

        def make():
            return R(cap, seed=seed, epoch=epoch, stream_key=key, max_bytes=lim)

        def apply(r, op, chunk):
            if op == "one":
                return [e for it in chunk for e in r.offer(it, size_bytes=so(it))]
            if op == "many":
                return list(r.offer_many((it, so(it)) for it in chunk))
            return list(r.offer_zero_sized(chunk))

        def body():
            t = Tracked(make(), cap, lim, so)
            plain = make()
            want = [list(plain.offer(it, size_bytes=so(it))) for it in items]
            tail = list(plain.drain())
            cut = rng.randrange(len(ops) + 1)
            snap = None
            got = []
            after = []
            for q, (op, chunk) in enumerate(ops):
                if q == cut:
                    snap = (t.r.state(), list(t.r.state().slots))
                e = apply(t.r, op, chunk)
                t.took(chunk, e)
                got += e
                if q >= cut:
                    after += e
            if cut == len(ops):
                snap = (t.r.state(), list(t.r.state().slots))
            last = list(t.r.drain())
            t.took([], last)
            require(not any(t.inside.values()) and len(t.r) == 0 and t.r.closed,
                    "items left inside after the drain")
            require(Counter(t.out) == Counter(items), "emitted items differ from the offered ones")
            require(got == [e for w in want for e in w] and last == tail,
                    "chunked offers emit differently from single offers")
            require(list(t.r.drain()) == [], "a second drain emits again")
            for call in (lambda: t.r.offer(0, size_bytes=0), lambda: t.r.offer_many([(0, 0)]),
                         lambda: t.r.offer_zero_sized((0,))):
                try:
                    call()
                except RuntimeError:
                    continue
                require(False, "a drained reservoir accepts items")
            require(list(snap[0].slots) == snap[1], "a snapshot changed after it was taken")
            r2 = make()
            r2.restore(snap[0])
            t2 = [e for op, chunk in ops[cut:] for e in apply(r2, op, chunk)]
            require(t2 == after and list(r2.drain()) == last, "the restored reservoir continues differently")
            require(r2.stats == t.r.stats, "the restored counters differ")
            # a restore that must be refused leaves the reservoir alone
            if zero and len(items) and all(0 <= i < 1 << 63 for i in items):
                p = P(cap, seed=seed, epoch=epoch, stream_key=key)
                tp = Tracked(p, cap, None, lambda i: 0)
                pg, snap_p, pafter = [], None, []
                for q, (op, chunk) in enumerate(ops):
                    if q == cut:
                        snap_p = p.state()
                    e = [int(x) for x in p.offer_block(PackedRecordBlock(np.array(chunk, dtype=np.uint64)))]
                    tp.took(chunk, e)
                    pg += e
                    if q >= cut:
                        pafter += e
                if snap_p is None:
                    snap_p = p.state()
                pl = [int(x) for x in p.drain()]
                tp.took([], pl)
                require(pg == got and pl == last, "the packed reservoir emits differently")
                p2 = P(cap, seed=seed, epoch=epoch, stream_key=key)
                p2.restore(snap_p)
                e2 = [int(x) for op, chunk in ops[cut:] for x in p2.offer_block(
                    PackedRecordBlock(np.array(chunk, dtype=np.uint64)))]
                require(e2 == pafter and [int(x) for x in p2.drain()] == pl,
                        "the restored packed reservoir continues differently")
                require(p2.stats == p.stats, "the restored packed counters differ")
        H.case("history", body, **info)

    for i in range(H.scale(400, 6000)):
        history(i)

    # refused inputs
    import dataclasses

    def refuse():
        r = R(3, seed=1, epoch=0, max_bytes=10)
        for bad in (-1, 11, True, 1.0):
            for call in (lambda: r.offer("x", size_bytes=bad), lambda: r.offer_many([("y", 2), ("x", bad)])):
                try:
                    call()
                except (ValueError, TypeError):
                    require(len(r) == 0 and r.stats.offered == 0, "a refused offer left something behind", bad=bad)
                    continue
                require(False, "an invalid item size was accepted", bad=bad)
        r.offer_many([("a", 3), ("b", 4), ("c", 3), ("d", 9)])
        s = r.state()
        for change in (dict(seed=2), dict(epoch=1), dict(capacity=4), dict(max_bytes=None), dict(stream_key=("q",)),
                       dict(offered=s.offered + 1), dict(emitted=s.emitted + 1), dict(resident_bytes=s.resident_bytes + 1),
                       dict(slots=s.slots + ("z",)), dict(slot_sizes=(-1,) * len(s.slots)), dict(closed=True),
                       dict(rng_counter=-1), dict(rng_counter=1 << 63), dict(peak_occupancy=4),
                       dict(peak_occupancy=0), dict(peak_resident_bytes=0), dict(algorithm="other")):
            try:
                R(3, seed=1, epoch=0, max_bytes=10).restore(dataclasses.replace(s, **change))
            except ValueError:
                continue
            require(False, "an inconsistent state was accepted", change=change)
    H.case("refused", refuse)

    def refuse_packed():
        p = P(3, seed=1, epoch=0)
        p.offer_block(PackedRecordBlock(np.arange(7, dtype=np.uint64)))
        s = p.state()
        for change in (dict(seed=2), dict(epoch=1), dict(capacity=4), dict(stream_key=("q",)),
                       dict(offered=s.offered + 1), dict(emitted=s.emitted + 1), dict(slots_le=s.slots_le + b"\0" * 8),
                       dict(slots_le=s.slots_le[:-1]), dict(slots_le=s.slots_le[:-8]), dict(closed=True),
                       dict(rng_counter=-1), dict(peak_occupancy=4), dict(peak_occupancy=0), dict(algorithm="other")):
            try:
                P(3, seed=1, epoch=0).restore(dataclasses.replace(s, **change))
            except (ValueError, RuntimeError, OverflowError, TypeError):
                continue
            require(False, "an inconsistent packed state was accepted", change=change)
    H.case("refused-packed", refuse_packed)

    def fifo(i):
        ops = []
        for _ in range(rng.randrange(1, 25)):
            ops.append(("ext", [rng.randrange(1 << 64) for _ in range(rng.choice([0, 1, 3, 9]))])
                       if rng.random() < .5 else (rng.choice(["pop", "pop", "pop", "rt", "bad"]), rng.random()))

        def body():
            b, model = PackedUInt64ReadyBuffer(), []
            for op, x in ops:
                if op == "ext":
                    b.extend(np.array(x, dtype=np.uint64))
                    model += x
                elif op == "pop":
                    k = int(x * (len(model) + 1))
                    got = [int(v) for v in b.pop(k)]
                    require(got == model[:k], "the ready buffer is not first-in first-out", got=got, want=model[:k])
                    del model[:k]
                elif op == "bad":
                    for k in (-1, len(model) + 1):
                        try:
                            b.pop(k)
                        except ValueError:
                            continue
                        require(False, "an out-of-range pop was accepted")
                else:
                    s = b.state()
                    b = PackedUInt64ReadyBuffer()
                    b.restore(s)
                require(len(b) == len(model), "ready buffer length differs")
                require([int(v) for v in b.state().record_ids()] == model, "ready buffer snapshot differs")
        H.case("ready-fifo", body, ops=ops)
    H.bound("ready-fifo", "random histories of up to 25 extend/pop/snapshot operations")
    for i in range(H.scale(300, 4000)):
        fifo(i)
