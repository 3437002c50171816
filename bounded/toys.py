"""Small record sources and datasets that drive the real planner code."""
import random


def toy_source(records, *, shapes=None, chunked=False, zero=False, exact=True, resumable=True, sequential=None,
               shuffle_seed=None, packed=0):
    """records: list of (key, shape_code, size)."""
    from dataset.source import RecordEnvelope, SourceCapabilities
    n_shapes = shapes if shapes is not None else (max((r[1] for r in records), default=0) + 1)

    class Toy:
        capabilities = SourceCapabilities(
            access_mode="sequential" if not exact else "random", known_length=exact,
            exact_distributed_partition=exact, resumable=resumable, deterministic=True)
        shape_codes = {(7 + k, 7 + k): k for k in range(n_shapes)}
        thread_safe_materialization = True

        def __init__(self):
            self.world, self.rank, self.sharded = 1, 0, False
            self.reads = []
            self.closed = 0

        def manifest_state(self):
            return {"toy": [list(r) for r in records], "zero": zero, "order": shuffle_seed}

        def configure_distributed(self, world, rank, *, rank_sharded):
            self.world, self.rank, self.sharded = world, rank, rank_sharded

        def _order(self, cursor):
            epoch, cycle, rank, _ = cursor
            idx = list(range(len(records)))
            if self.sharded:
                idx = [i for i in idx if i % self.world == rank]
            if shuffle_seed is not None:
                random.Random(f"{shuffle_seed}/{epoch}/{cycle}/{rank if self.sharded else 0}").shuffle(idx)
            return idx

        def start_epoch(self, epoch, rank):
            return (epoch, 0, rank, 0)

        def start_cycle(self, epoch, cycle, rank):
            return (epoch, cycle, rank, 0)

        def _env(self, i, cycle):
            k, shape, size = records[i]
            return RecordEnvelope(source_id=0, record_key=("toy", k, cycle), shape_code=shape, payload=i,
                                  resident_bytes=0 if zero else size)

        def next_envelope(self, cursor):
            e, cy, r, p = cursor
            order = self._order(cursor)
            if p >= len(order):
                return None, cursor
            return self._env(order[p], cy), (e, cy, r, p + 1)

        def materialize_batch(self, envelopes):
            return {"ids": [x.payload for x in envelopes], "keys": [x.record_key for x in envelopes]}

        def save_cursor(self, cursor):
            return {"c": list(cursor)}

        def restore_cursor(self, state):
            return tuple(state["c"])

        def close_cursor(self, cursor):
            self.closed += 1

    if packed:
        def next_packed_records(self, cursor, limit):
            import numpy as np
            from dataset.packed import PackedRecordBlock
            e, cy, r, p = cursor
            order = self._order(cursor)
            take = order[p:p + min(limit, packed)]
            return PackedRecordBlock(np.array(take, dtype=np.uint64)), (e, cy, r, p + len(take))

        def envelopes_from_record_ids(self, ids):
            return [self._env(int(i), 0) for i in ids]
        Toy.next_packed_records, Toy.envelopes_from_record_ids = next_packed_records, envelopes_from_record_ids
    if zero:
        Toy.zero_resident_envelopes = True
    if chunked:
        def next_envelopes(self, cursor, limit):
            e, cy, r, p = cursor
            order = self._order(cursor)
            take = order[p:p + (min(limit, chunked) if chunked is not True else limit)]
            return [self._env(i, cy) for i in take], (e, cy, r, p + len(take))
        Toy.next_envelopes = next_envelopes
    return Toy()


def context(global_batch, world=1, rank=0, seed=0, mode="train"):
    from dataset.core import DatasetRuntimeContext
    return DatasetRuntimeContext(global_batch, global_batch // world, world, rank, seed, mode)


def some_records(rng, n, n_shapes=1, sizes=(1, 9)):
    return [(i, rng.randrange(n_shapes), rng.randint(*sizes)) for i in range(n)]
