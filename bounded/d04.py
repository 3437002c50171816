"""D04, executable contracts on the real batch planner (bounded)."""
from collections import Counter

from .harness import require
from . import cpp
from .toys import toy_source, context, some_records


def run(H):
    cpp.build(H, "dataset_planner_cpp")
    from dataset.planner import DatasetPlanner, PlannerConfig
    rng = H.rng
    H.bound("epochs", f"{H.scale(700, 12000)} random epochs: up to 60 records, 5 shapes, batches up to 9 rows, "
                      "windows up to 20 records, optional byte limit, budget, ranks and packed storage")

    def epoch(i):
        exact = rng.random() < .75
        mode = rng.choice(["train", "validate", "test"]) if exact else "train"
        world = rng.choice([1, 2, 3])
        local = rng.choice([1, 1, 2, 3])
        B = world * local
        n_shapes = rng.choice([1, 1, 2, 3, 5])
        packed = rng.choice([0, 0, 1, 3, 50]) if n_shapes == 1 and exact else 0
        zero = rng.random() < .3
        n = rng.choice([0, 1, B, B - 1, 2 * B, rng.randrange(60)])
        recs = some_records(rng, n, n_shapes)
        if n and rng.random() < .3:      # shapes in runs
            recs = sorted(recs, key=lambda r: r[1])
        chunked = rng.choice([False, True, 1, 4])
        sharded = world > 1 and not exact
        steps = rng.choice([None, None, 1, 2, 3, 7])
        if sharded and steps is None:
            steps = rng.randint(1, 12)
        shuffle = rng.random() < .7
        window = rng.choice([1, 2, 3, 5, 20])
        lim = rng.choice([None, None, 9, 30]) if not zero and not packed else None
        order_seed = rng.choice([None, 4])
        seed = rng.randrange(1000)
        max_q = rng.choice([64, 64, n_shapes, max(1, n_shapes - 1)])
        cfg = PlannerConfig(shuffle=shuffle, shuffle_buffer_size=window, shuffle_buffer_bytes=lim,
                            max_shape_queues=max_q, steps_per_epoch=steps)

        def make(rank):
            # three spare codes: the planner must not treat a multi-shape source as uniform
            return DatasetPlanner(
                toy_source(recs, shapes=n_shapes, chunked=chunked, zero=zero, exact=exact, shuffle_seed=order_seed,
                           packed=packed), context(B, world, rank, seed, mode), cfg)

        def ids(b):
            if packed:
                return [int(x) for x in b.envelopes.record_ids], [0] * len(b.envelopes)
            return [e.payload for e in b.envelopes], [e.record_key[2] for e in b.envelopes]

        def one(p, rank, ep):
            size = local if sharded else B
            src = [x for x in p.source._order((ep, 0, rank, 0))]
            queue_error = False
            batches = []
            while True:
                try:
                    b = p.next_batch()
                except RuntimeError as e:
                    text = str(e)
                    if "queue limit" in text:
                        require(len({r[1] for r in recs}) > max_q, "refused although the shapes fit the queues")
                        queue_error = True
                        break
                    if "16 consecutive" in text:
                        require(not src, "gave up on a source that has records")
                        return []
                    raise
                if b is None:
                    break
                batches.append(b)
                require(len(batches) <= 200, "the epoch does not end")
                require(b.epoch == ep and b.batch_index == len(batches) - 1, "batch number", got=b.batch_index)
                who, _ = ids(b)
                require(len(who) == size and len(b.is_real) == size, "batch is not full", got=len(who), want=size)
                k = sum(b.is_real)
                require(k >= 1 and all(b.is_real[:k]), "the real rows do not come first", mask=b.is_real)
                require(len({recs[x][1] for x in who}) == 1, "batch mixes shapes", rows=who)
                require(set(who[k:]) <= set(who[:k]), "padding is not a copy of real rows", rows=who, real=k)
                require(k == size or mode != "train", "a training batch is padded", real=k)
                if b.is_last:
                    require(p.next_batch() is None, "a batch follows the last one")
                    break
            require(queue_error or p.finished, "the epoch ended but is not finished")
            real = [(x, c) for b in batches for x, c, r in zip(*ids(b), b.is_real) if r]
            count = Counter(real)
            require(not count or max(count.values()) == 1, "a record was delivered twice",
                    twice=[k for k, v in count.items() if v > 1][:3])
            require({x for x, _ in real} <= set(src), "a record of another rank was delivered")
            if queue_error:
                return batches
            if steps is not None:
                require(len(batches) <= steps, "more batches than the budget", got=len(batches))
                last = len(batches) == steps
                require(all(b.is_last == (j + 1 == steps) for j, b in enumerate(batches)) or mode != "train",
                        "the last-batch flag does not mark the budget", flags=[b.is_last for b in batches])
            else:
                last = False
            if sharded:
                require(len(batches) == steps or not src, "the budget of a cycled source was not met", got=len(batches))
                top = max([c for _, c in real], default=0)
                for c in range(top):
                    here = Counter(x for x, cc in real if cc == c)
                    missing = [x for x in src if not here[x]]
                    shorts = Counter(recs[x][1] for x in missing)
                    require(len(missing) == 0 or n_shapes > 1 and all(v < size for v in shorts.values()),
                            "a cycle lost records", cycle=c, missing=missing)
                return batches
            if not last:
                left = Counter(recs[x][1] for x in src)
                left.subtract(recs[x][1] for x, _ in real)
                if mode == "train":
                    require(all(0 <= v < size for v in left.values()),
                            "training omitted a whole batch of one shape", omitted=dict(left))
                else:
                    require(not any(left.values()), "evaluation omitted records", omitted=dict(left))
                    pads = [b for b in batches if not all(b.is_real)]
                    require(len({recs[ids(b)[0][0]][1] for b in pads}) == len(pads), "two padded batches of one shape")
                    require(not batches or batches[-1].is_last or not pads, "the last batch is not flagged")
            if n_shapes == 1:
                got = [x for x, _ in real]
                if not shuffle:
                    require(got == src[:len(got)], "records out of order without shuffling")
                else:
                    pos = {x: j for j, x in enumerate(src)}
                    for j, x in enumerate(got):
                        require(pos[x] <= j + window, "a record came out earlier than the window allows",
                                position=j, source_position=pos[x])
            else:
                # within a shape without shuffling: source order
                if not shuffle:
                    for s in range(n_shapes):
                        got = [x for x, _ in real if recs[x][1] == s]
                        require(got == [x for x in src if recs[x][1] == s][:len(got)],
                                "records of a shape out of order without shuffling")
            return batches

        def body():
            runs = []
            for rank in range(world):
                p = make(rank)
                b0 = one(p, rank, 0)
                p.start_epoch(1)
                b1 = one(p, rank, 1)
                q = make(rank)
                q.start_epoch(1)
                b1b = one(q, rank, 1)
                require([ids(b) for b in b1] == [ids(b) for b in b1b], "the second epoch depends on the first")
                runs.append([[ids(b) + (b.is_real,) for b in bs] for bs in (b0, b1)])
            if not sharded:
                require(all(r == runs[0] for r in runs), "the ranks plan different global batches")
        H.case("epoch", body, mode=mode, world=world, local=local, records=recs, packed=packed, zero=zero,
               chunked=chunked, exact=exact, config=repr(cfg), order_seed=order_seed, seed=seed)

    for i in range(H.scale(700, 12000)):
        epoch(i)

    def refused():
        src = toy_source([(0, 0, 1)])
        bad = [dict(shuffle=1), dict(shuffle=True, shuffle_buffer_size=0), dict(shuffle=True, shuffle_buffer_bytes=0),
               dict(shuffle=True, max_shape_queues=0), dict(shuffle=True, steps_per_epoch=0),
               dict(shuffle=True, steps_per_epoch=True), dict(shuffle=True, shuffle_buffer_size=2.0)]
        for kw in bad:
            try:
                PlannerConfig(**kw)
            except (TypeError, ValueError):
                continue
            require(False, "a malformed planner configuration was accepted", config=kw)
        for mode, steps in (("validate", 3), ("train", None)):
            try:
                DatasetPlanner(toy_source([(0, 0, 1)], exact=False), context(2, 2, 0, 0, mode),
                               PlannerConfig(shuffle=False, steps_per_epoch=steps))
            except ValueError:
                continue
            require(False, "a rank-sharded planner was accepted", mode=mode, steps=steps)
    H.case("refusals", refused)

    def wrong_shape():
        """A source that breaks its declared uniform shape is noticed, not mixed in."""
        for bad in range(4):
            recs = [(i, 1 if i == bad else 0, 1) for i in range(4)]
            p = DatasetPlanner(toy_source(recs, shapes=1), context(2), PlannerConfig(shuffle=False))
            try:
                rows = []
                while (b := p.next_batch()) is not None:
                    rows.append([e.shape_code for e in b.envelopes])
            except RuntimeError:
                continue
            require(False, "records of an undeclared shape were delivered", rows=rows)
    H.case("undeclared shape", wrong_shape)
