"""D08, executable contracts: real composites over toy and real children against an independent merge (bounded)."""
import os
import pickle
from fractions import Fraction
from math import gcd

from .harness import require
from . import cpp, realdata as R


def child_source(index, shapes, length, chunk, *, tree=False, closable=True, rng=None):
    """A list-backed child. Records carry (child, position); chunk: None = only next_envelope, n = at most n per call."""
    import numpy as np
    from dataset.source import RecordEnvelope, SourceCapabilities
    codes = list(range(len(shapes)))
    rng.shuffle(codes)
    kinds = [rng.randrange(len(shapes)) for _ in range(length)]

    class Cur:
        def __init__(self, epoch, cycle, rank, pos):
            self.epoch, self.cycle, self.rank, self.pos = epoch, cycle, rank, pos

    class Child:
        capabilities = SourceCapabilities(access_mode="random", known_length=True, exact_distributed_partition=True,
                                          resumable=True, deterministic=True)
        shape_codes = {s: c for s, c in zip(shapes, codes)}

        def __init__(self):
            self.open, self.batches = 0, []

        def manifest_state(self):
            return {"child": index}

        def configure_distributed(self, world, rank, *, rank_sharded):
            self.sharded = rank_sharded

        def start_cycle(self, epoch, cycle, rank):
            self.open += 1
            return Cur(epoch, cycle, rank if self.sharded else 0, 0)

        def env(self, cur):
            p = cur.pos
            cur.pos += 1
            return RecordEnvelope(source_id=p % 3, record_key=("toy", (p, cur.cycle) if tree else p, cur.epoch),
                                  shape_code=codes[kinds[p]], payload=(p, kinds[p]), resident_bytes=10 + p)

        def next_envelope(self, cur):
            return (None if cur.pos >= length else self.env(cur)), cur

        def materialize_batch(self, envelopes):
            self.batches.append([e.payload for e in envelopes])
            n = len(envelopes)
            b, w = shapes[envelopes[0].payload[1]]
            return {"board_size": np.stack([np.array([b, w], np.int8)] * n), "board_input": np.full((n, 2, b, w), index, np.int8),
                    "stm_input": np.array([[e.payload[0]] for e in envelopes], np.float32),
                    "value_target": np.array([[index, e.payload[0], e.resident_bytes] for e in envelopes], np.float32),
                    "policy_target": np.zeros((n, b, w), np.float32)}

        def save_cursor(self, cur):
            return {"at": [cur.epoch, cur.cycle, cur.rank, cur.pos]}

        def restore_cursor(self, state):
            self.open += 1
            return Cur(*state["at"])

        def save_payload(self, p):
            return {"p": list(p)}

        def restore_payload(self, s):
            return tuple(s["p"])

        def close_cursor(self, cur):
            self.open -= 1
    if chunk:
        def next_envelopes(self, cur, limit):
            out = []
            while len(out) < min(limit, chunk) and cur.pos < length:
                out.append(self.env(cur))
            return tuple(out), cur
        Child.next_envelopes = next_envelopes
    c = Child()
    c.kinds, c.codes, c.length, c.shapes = kinds, codes, length, shapes
    return c


def merge(schedule, weights, lengths, sync):
    """What the composite must deliver, [(child, position)], and the number of cycles."""
    out, at, cycles = [], [0] * len(weights), 0
    while True:
        if sync:
            if any(at[c] + w > lengths[c] for c, w in enumerate(weights)):
                return out, cycles
        elif all(at[c] == n for c, n in enumerate(lengths)):
            return out, cycles
        for c in schedule:
            if at[c] < lengths[c]:
                out.append((c, at[c]))
                at[c] += 1
        cycles += 1


def run(H):
    cpp.build(H, "dataset_planner_cpp")
    import dataset
    from dataset.composite_source import CompositePayload, CompositeRecordSource, _weighted_cycle
    rng = H.rng
    n_cycle, n_toy, n_ratio, n_real = H.scale(1500, 20000), H.scale(400, 5000), H.scale(1500, 20000), H.scale(40, 500)
    H.bound("schedules", f"{n_cycle} random weight tuples of 1-8 children")
    H.bound("toy composites", f"{n_toy} random composites of 1-5 children of 0-40 records, every reading rhythm, saved at every record (at most 40 cuts)")
    H.bound("ratios", f"{n_ratio} random blend ratios")
    H.bound("real composites", f"{n_real} random iterative_multi datasets over real files")

    for _ in range(n_cycle):
        w = tuple(rng.choice([1, 1, 2, 3, rng.randint(1, 40), rng.randint(1, 7)]) for _ in range(rng.randint(1, 8)))

        def body():
            s = _weighted_cycle(w)
            require(len(s) == sum(w) and all(s.count(c) == x for c, x in enumerate(w)), "a cycle holds each child exactly by its weight", schedule=s)
            require(s == _weighted_cycle(w), "the schedule is a function of the weights")
        H.case("weighted cycle", body, weights=w)
    for bad in [(), (0,), (1, 0), (-1, 2), (1.0,), (True, 2), ("1",)]:
        def body():
            try:
                _weighted_cycle(bad)
            except ValueError:
                return
            require(False, "an unusable weight is refused", weights=bad)
        H.case("weighted cycle", body, weights=bad)

    class Fake:
        child_ids = tuple("abcdefgh")
        _integer_ratio_weights = dataset.MultiIterativeDataset._integer_ratio_weights
    for _ in range(n_ratio):
        k = rng.randint(1, 5)
        ratios = [float(rng.choice([1, 2, 3, .5, .25, .1, .3, .7, 1.5, round(rng.uniform(.001, 9), rng.randint(1, 6)) or 1.0, rng.randint(1, 999),
                                    1e-6, 2.5e-5, 1e20])) for _ in range(k)]

        def body():
            f = Fake()
            f.blend_ratios = ratios
            got = f._integer_ratio_weights()
            exact = [Fraction(repr(r)) for r in ratios]
            require(len(got) == k and all(type(x) is int and x > 0 for x in got), "weights are positive integers", got=got)
            require(all(got[i] * exact[0] == got[0] * exact[i] for i in range(k)), "weights have exactly the configured ratio", got=got)
            g = 0
            for x in got:
                g = gcd(g, x)
            require(g == 1, "a cycle is the shortest one with that ratio", got=got)
        H.case("ratios", body, ratios=ratios)
    for bad in [0., -1., float("inf"), float("nan"), 1e-7, .12345678]:
        def body():
            f = Fake()
            f.blend_ratios = [1.0, bad]
            try:
                got = f._integer_ratio_weights()
            except ValueError:
                return
            require(False, "a ratio that cannot be honoured exactly is refused", got=got)
        H.case("ratios", body, ratios=[1.0, bad])

    def facts(e):
        return (e.source_id, e.record_key, e.shape_code, e.payload.child_index, e.payload.envelope.source_id, e.payload.envelope.record_key,
                e.payload.envelope.shape_code, e.payload.envelope.payload, e.payload.envelope.resident_bytes, e.resident_bytes)

    def drain(src, cur, how):
        out = []
        while True:
            k = how()
            if k == 0:
                e, c2 = src.next_envelope(cur)
                got = [] if e is None else [e]
            else:
                got, c2 = src.next_envelopes(cur, k)
                require(len(got) <= k, "no more records than asked for", got=len(got), limit=k)
            require(c2 is cur, "the cursor passed in is the one advanced")
            if not got:
                return out
            out += got

    def closed_ok(children):
        return all(c.open == 0 for c in children)

    for t in range(n_toy):
        n = rng.randint(1, 5)
        weights = tuple(rng.choice([1, 1, 2, 3, rng.randint(1, 6)]) for _ in range(n))
        base = rng.randint(0, 8)
        lengths = [rng.choice([base * w, base * w + rng.randint(0, w), rng.randint(0, 20), rng.randint(0, 3)]) for w in weights]
        if rng.random() < .1:
            lengths = [0] * n
        sync = rng.random() < .5
        shapes = [(k, k) for k in (5, 7, 9)][:rng.choice([1, 2, 3])]
        ids = rng.sample(["a", "b", "c", "main", "ä", "0", "1", "selfplay"], n)
        world = rng.choice([1, 1, 2])
        rank = rng.randrange(world)
        sharded = world > 1 and rng.random() < .5
        epoch, cycle = rng.randrange(3), rng.randrange(3)
        chunks = [rng.choice([None, 1, 2, 3, 1000]) for _ in range(n)]
        spec = [rng.sample(shapes, rng.randint(1, len(shapes))) for _ in range(n)]
        tree = [rng.random() < .5 for _ in range(n)]
        seed = rng.randrange(1 << 30)

        def make():
            import random
            r = random.Random(seed)
            kids = [child_source(i, spec[i], lengths[i], chunks[i], tree=tree[i], rng=r) for i in range(n)]
            src = CompositeRecordSource(kids, ids, weights, sync_length=sync)
            src.configure_distributed(world, rank, rank_sharded=sharded)
            return src, kids

        def body():
            src, kids = make()
            schedule = src.schedule
            require(tuple(schedule) == _weighted_cycle(weights), "the schedule is the cycle of the weights")
            want, cycles = merge(schedule, weights, lengths, sync)
            cur = src.start_cycle(epoch, cycle, rank)
            one = drain(src, cur, lambda: 0)
            seen = [(e.payload.child_index, e.payload.envelope.payload[0]) for e in one]
            require(seen == want, "records come in the scheduled order, each child in full and in order" if not sync else
                    "only the complete cycles come, in the scheduled order", got=seen, want=want)
            require(cur.cycle_index == cycles and cur.terminal, "completed cycles are counted", got=cur.cycle_index, want=cycles)
            for e, (c, p) in zip(one, want):
                k = ("toy", (p, cycle) if tree[c] else p, epoch)
                require(e.source_id == c and e.record_key == ("composite", ids[c], k) and e.payload.envelope.record_key == k
                        and e.payload.envelope.resident_bytes == 10 + p and e.payload.envelope.source_id == p % 3
                        and e.resident_bytes >= 10 + p, "a record is attributed to the child it came from", record=facts(e), want=(c, p))
                require(src.shape_codes[spec[c][kids[c].kinds[p]]] == e.shape_code and e.payload.envelope.shape_code ==
                        kids[c].codes[kids[c].kinds[p]], "a record carries the code of its own shape", record=facts(e))
            require(src.next_envelope(cur)[0] is None and not src.next_envelopes(cur, 3)[0], "an ended composite stays ended")
            src.close_cursor(cur)
            require(closed_ok(kids), "closing the cursor closes the children")
            # the same records in every reading rhythm
            big = rng.choice([2, 5, 30, 200])
            src2, kids2 = make()
            cur2 = src2.start_cycle(epoch, cycle, rank)
            other = src2.start_cycle(epoch + 1, cycle, rank)
            src2.next_envelope(other)
            many = drain(src2, cur2, lambda: rng.choice([0, 1, rng.randint(1, big), big]))
            require([facts(e) for e in many] == [facts(e) for e in one], "reading in chunks gives the same records",
                    got=[(e.payload.child_index, e.payload.envelope.payload[0]) for e in many], want=want)
            require(cur2.cycle_index == cycles and cur2.terminal, "completed cycles are counted", got=cur2.cycle_index, want=cycles)
            # cut anywhere
            src3, kids3 = make()
            cuts = list(range(len(want) + 1)) + [len(want) + 1]
            for cut in cuts if len(cuts) <= 12 else rng.sample(cuts, 12):
                cur3, left, head = src3.start_cycle(epoch, cycle, rank), cut, []
                while left > 0:
                    k = rng.choice([0, rng.randint(1, left)])
                    got = [src3.next_envelope(cur3)[0]] if k == 0 else list(src3.next_envelopes(cur3, k)[0])
                    if not got or got == [None]:
                        break
                    head += got
                    left -= len(got)
                saved = pickle.loads(pickle.dumps(src3.save_cursor(cur3)))
                src4, kids4 = make()
                back = src4.restore_cursor(saved)
                tail = drain(src4, back, lambda: rng.choice([0, 1, 3, 50]))
                require([facts(e) for e in head + tail] == [facts(e) for e in one], "nothing is skipped or repeated across a resume",
                        cut=cut, got=[(e.payload.child_index, e.payload.envelope.payload[0]) for e in head + tail], want=want)
                rest = drain(src3, cur3, lambda: rng.choice([0, 2]))
                require([facts(e) for e in head + rest] == [facts(e) for e in one], "saving does not disturb the reader", cut=cut)
                require(back.cycle_index == cycles, "completed cycles survive a resume", cut=cut, got=back.cycle_index, want=cycles)
                src4.close_cursor(back)
                require(closed_ok(kids4), "closing a restored cursor closes the children")
            for e in one[:6]:
                require(src.restore_payload(pickle.loads(pickle.dumps(src.save_payload(e.payload)))) == e.payload, "payloads survive a save",
                        record=facts(e))
            # materialised rows belong to their envelopes, whatever the order
            by_shape = {}
            for e in one:
                by_shape.setdefault(e.shape_code, []).append(e)
            for group in by_shape.values():
                pick = rng.sample(group, min(len(group), 7))
                pick += [rng.choice(group)] if rng.random() < .3 else []
                data = src.materialize_batch(tuple(pick))
                for row, e in enumerate(pick):
                    p, c = e.payload.envelope.payload[0], e.payload.child_index
                    require([int(x) for x in data["value_target"][row]] == [c, p, 10 + p] and int(data["board_input"][row].flatten()[0]) == c
                            and int(data["stm_input"][row][0]) == p, "a materialised row is the row of its record", row=row, record=facts(e))
            if one:
                import dataclasses
                e = rng.choice(one)
                lies = [dataclasses.replace(e, record_key=("composite", ids[e.source_id], ("other",))),
                        dataclasses.replace(e, record_key=("composite", "nobody", e.record_key[2])),
                        dataclasses.replace(e, source_id=e.source_id + 1),
                        dataclasses.replace(e, payload=CompositePayload(n, e.payload.envelope)),
                        dataclasses.replace(e, payload="x")]
                for lie in lies:
                    try:
                        src.materialize_batch((lie,))
                    except (RuntimeError, AttributeError):
                        continue
                    require(False, "an inconsistent record is refused", lie=repr(lie))
            # states of another composite or of another read are refused
            cur5 = src.start_cycle(epoch, cycle, rank)
            src.next_envelope(cur5)
            good = src.save_cursor(cur5)
            for key, value in [("schema", "x"), ("epoch", epoch + 1), ("epoch", -1), ("source_cycle", cycle + 1), ("rank", 7),
                               ("child_cursors", good["child_cursors"][:-1]), ("exhausted", [False] * (n + 1)), ("exhausted", [0] * n),
                               ("cycle_index", -1), ("terminal", None), ("pending", [{"payload": {}}]), ("pending", None)]:
                try:
                    src.restore_cursor({**good, key: value})
                except ValueError:
                    continue
                except KeyError:
                    if key == "pending":
                        continue
                    raise
                require(False, "a foreign or damaged state is refused", key=key, value=value)
            if good["pending"]:
                try:
                    src.restore_cursor({**good, "terminal": True})
                except ValueError:
                    pass
                else:
                    require(False, "an ended state with records left is refused")
        H.case("toy composites", body, weights=weights, lengths=lengths, sync=sync, chunks=chunks, ids=ids, world=world, rank=rank, sharded=sharded)

    # ------------------------------------------------ real datasets
    for t in range(n_real):
        _, make, _, kw = R.fleet(H, rng, os.path.join(H.scratch, f"real{t}"), kinds=["iterative_multi"])
        epoch, seed = rng.randrange(3), rng.randrange(50)

        def body():
            src = make(R.ctx(2, seed=seed))._record_source
            ratios = [Fraction(str(c["blend_ratio"])) for c in kw["dataset_dict"].values()]
            require(all(src.weights[i] * ratios[0] == src.weights[0] * ratios[i] for i in range(len(ratios))), "weights follow blend_ratio")
            require(src.child_ids == tuple(kw["dataset_dict"]) and src.sync_length == kw["sync_length"], "configuration reaches the source")
            kids = []
            for c, child in enumerate(src.child_sources):
                cur = child.start_cycle(epoch, 0, 0) if hasattr(child, "start_cycle") else child.start_epoch(epoch, 0)
                seq = []
                while True:
                    e, cur = child.next_envelope(cur)
                    if e is None:
                        break
                    seq.append((e.record_key, e.payload))
                kids.append(seq)
            want, cycles = merge(src.schedule, src.weights, [len(k) for k in kids], src.sync_length)
            cur = src.start_epoch(epoch, 0)
            got = drain(src, cur, lambda: rng.choice([0, 1, 4, 100]))
            seen = [(e.source_id, e.record_key[2], e.payload.envelope.payload) for e in got]
            require(seen == [(c, *kids[c][p]) for c, p in want], "a real composite follows its schedule", got=len(seen), want=len(want))
            cut = rng.randint(0, len(want))
            src2 = make(R.ctx(2, seed=seed))._record_source
            cur2, head = src2.start_epoch(epoch, 0), []
            for _ in range(cut):
                head.append(src2.next_envelope(cur2)[0])
            src3 = make(R.ctx(2, seed=seed))._record_source
            tail = drain(src3, src3.restore_cursor(pickle.loads(pickle.dumps(src2.save_cursor(cur2)))), lambda: rng.choice([0, 3]))
            require([facts(e) for e in head + tail] == [facts(e) for e in got], "a real composite resumes exactly", cut=cut)
            shapes = {}
            for e in got:
                shapes.setdefault(e.shape_code, []).append(e)
            for group in shapes.values():
                pick = rng.sample(group, min(len(group), 6))
                data = src.materialize_batch(tuple(pick))
                for row, e in enumerate(pick):
                    alone = src.child_sources[e.source_id].materialize_batch((e.payload.envelope,))
                    for key in data:
                        require(R.show(data[key][row]) == R.show(alone[key][0]) or
                                R.show(data[key]) == R.show(alone[key]), "a row is what its child decodes", key=key)
        H.case("real composites", body, config=kw, epoch=epoch)
