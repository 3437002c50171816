"""D05, executable contracts on stream transactions and resume (bounded)."""
import copy
import io
import os
import pickle
import shutil

from .harness import require
from . import cpp, realdata as R
from .toys import toy_source, context, some_records


def toy_pipelines(kind):
    from dataset.core import FieldSpec, PreparedPipelineResult
    spec = lambda n, kinds=("i",): FieldSpec(n, True, "per_sample", None, None, "stack", kinds, "plain")

    class Counting:
        """Stateful: numbers every row it ever saw."""
        pipeline_id, schema_version = "counting", 1
        input_fields, output_fields = (spec("ids"),), (spec("serial"), spec("occ"))

        def signature_state(self):
            return {"k": kind}

        def initial_state(self):
            return {"seen": 0, "last": b"\0"}

        def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
            import numpy as np
            n = len(sample_keys)
            out = dict(data)
            out["serial"] = np.arange(current_state["seen"], current_state["seen"] + n)
            out["occ"] = np.array([k[2] * 1000 + k[0] for k in rng_keys])
            return PreparedPipelineResult(out, {"seen": current_state["seen"] + n, "last": bytes([n])})

    class Keyed:
        """Stateless: what an augmentation keyed by the row sees."""
        pipeline_id, schema_version = "keyed", 2
        input_fields, output_fields = (spec("ids"),), (spec("aug"),)

        def signature_state(self):
            return {"v": 1}

        def process_batch(self, data, *, sample_keys, rng_keys):
            import numpy as np
            import zlib
            return {**data, "aug": np.array([zlib.crc32(repr(k).encode()) for k in rng_keys], dtype=np.int64)}
    return [p() for p in {"none": (), "count": (Counting,), "key": (Keyed,), "both": (Keyed, Counting)}[kind]]


def run(H):
    cpp.build(H, "dataset_planner_cpp")
    import torch
    from dataset.core import PipelineStateComposer
    from dataset.planner import DatasetPlanner, PlannerConfig
    from dataset.source_dataset import SourceBatchDataset
    from dataset.source import RecordEnvelope
    rng = H.rng
    n_toy, n_real = H.scale(700, 6000), H.scale(220, 2000)
    H.bound("toy histories", f"{n_toy} random consume/commit/abandon/crash/restore histories over small sources, "
                             "up to 40 records, 4 shapes, 3 epochs, 3 ranks, pipelines with and without state")
    H.bound("real histories", f"{n_real} such histories over files of every iterable format")

    def transport(state):
        k = rng.randrange(3)
        if k == 0:
            return pickle.loads(pickle.dumps(state))
        if k == 1:
            return copy.deepcopy(state)
        f = io.BytesIO()
        torch.save(state, f)
        f.seek(0)
        return torch.load(f, weights_only=rng.random() < .5)

    def reference(make, epochs):
        """The uninterrupted stream: [(epoch envelope list)], or None if an epoch is empty."""
        try:
            planner, data = make()
        except ValueError as e:
            if "at least one file per rank" in str(e):
                return None
            raise
        out = []
        for _ in range(epochs):
            try:
                for b in data:
                    if planner.runtime_context.mode == "train":
                        planner.commit_batch(b.token)
                    out.append(R.envelope(b))
            except RuntimeError as e:
                if "produced no global batch" in str(e) or "16 consecutive" in str(e) or "queue limit" in str(e):
                    return None
                raise
        return out

    def history(make, foreign, ref, epochs, steps):
        train = ref is not None
        planner, data = make()
        train = planner.runtime_context.mode == "train"
        done = 0                                 # committed batches
        pool = [(0, planner.state_dict())]
        log = []
        for _ in range(steps):
            act = rng.choice(["run", "run", "run", "crash", "old", "rollback", "foreign"])
            log.append(act)
            if act == "run":
                # one iterator: within one epoch
                if done >= len(ref):
                    act = "old"
                else:
                    limit = rng.choice([0, 1, 2, 3, 99])
                    group = rng.choice([1, 1, 2, 3])
                    keep = rng.random()
                    log[-1] = f"run(limit={limit},group={group},keep={keep:.1f})"
                    it = iter(data)
                    pending, pos = [], done
                    try:
                        while limit:
                            limit -= 1
                            b = next(it)
                            require(pos < len(ref), "more batches than the uninterrupted stream", history=log)
                            bad = R.differs(R.envelope(b), ref[pos])
                            require(bad is None, "a batch differs from the uninterrupted stream", where=bad,
                                    position=pos, committed=done, history=log)
                            pos += 1
                            if not train:
                                done = pos
                                continue
                            pending.append(b.token)
                            if len(pending) >= group or b.token.batch.is_last:
                                if keep < .2 and rng.random() < .5:
                                    break            # the step fails: nothing is committed
                                before = planner.state_dict()
                                cand = planner.prepare_commit(pending)
                                require(planner.state_dict() == before, "preparing a commit moves the committed position",
                                        history=log)
                                if rng.random() < .3:
                                    for bad_tokens in (pending[1:], pending[::-1] if len(pending) > 1 else [],
                                                       [pending[0]] + pending):
                                        try:
                                            planner.prepare_commit(bad_tokens)
                                        except (RuntimeError, ValueError):
                                            continue
                                        require(False, "an out-of-order commit was accepted", history=log)
                                planner.commit_prepared(cand)
                                done = pos
                                pending = []
                                try:
                                    planner.commit_prepared(cand)
                                except RuntimeError:
                                    pass
                                else:
                                    require(cand.before_digest == cand.after_digest, "a commit was applied twice",
                                            history=log)
                            if rng.random() < .15:
                                pool.append((done, planner.state_dict()))
                    except StopIteration:
                        require(pos >= len(ref) or ref[pos]["epoch"] != ref[pos - 1]["epoch"],
                                "the epoch ended early", position=pos, history=log)
                        if pos != done:
                            # everything was delivered but not committed
                            try:
                                next(iter(data))
                            except RuntimeError:
                                pass
                            else:
                                require(False, "a new epoch began over uncommitted batches", history=log)
                            planner.rollback_uncommitted()
                    it.close()
            if act == "rollback":
                planner.rollback_uncommitted()
            if act == "crash":
                pool.append((done, planner.state_dict()))
                planner, data = make()
                planner.load_state_dict(transport(pool[-1][1]))
            if act == "old":
                done, state = rng.choice(pool)
                log.append(f"at {done}")
                if rng.random() < .6:
                    planner, data = make()
                planner.load_state_dict(transport(state))
            if act == "foreign" and foreign:
                f = rng.choice(foreign)
                other, other_data = f()
                if rng.random() < .5:
                    try:
                        for b in other_data:
                            if other.runtime_context.mode == "train":
                                other.commit_batch(b.token)
                            break
                    except RuntimeError as e:
                        if "produced no global batch" not in str(e):
                            raise
                    other.rollback_uncommitted()
                before = planner.state_dict()
                shown = repr(live(planner))
                bad = other.state_dict()
                for st in (bad, {**before, "version": 2}, {**before, "version": None},
                           {**before, "planner_algorithm": "dataset-planner-v1"},
                           {**before, "signature": bad["signature"]},
                           {k: v for k, v in before.items() if k != "cursor"},
                           {**before, "cursor": {**before["cursor"], "algorithm": "x"}},
                           {**before, "cursor": {**before["cursor"], "manifest_digest": "0" * 64}},
                           {**before, "cursor": {**before["cursor"], "config": bad["cursor"]["config"]}}
                           if bad["cursor"]["config"] != before["cursor"]["config"] else bad,
                           {**before, "cursor_digest": "ab"}):
                    try:
                        planner.load_state_dict(transport(st) if st is bad else st)
                    except (RuntimeError, ValueError, TypeError, KeyError):
                        pass
                    else:
                        require(False, "a state of another stream was accepted", state={k: v for k, v in st.items()
                                                                                      if k != "cursor"}, history=log)
                    require(planner.state_dict() == before, "a refused state was partly applied", history=log)
                    require(repr(live(planner)) == shown, "a refused state moved the reader", history=log)
        return log

    def live(p):
        """The planner's own position (not only what it committed)."""
        return p._state_to_serializable(p.state())

    # ------------------------------------------------------------ small sources
    def toy(i):
        exact = rng.random() < .7
        mode = rng.choice(["train", "train", "validate", "test"]) if exact else "train"
        world = rng.choice([1, 1, 2, 3])
        rank = rng.randrange(world)
        B = world * rng.choice([1, 2, 3])
        n_shapes = rng.choice([1, 1, 2, 4])
        packed = rng.choice([0, 0, 1, 3, 50]) if n_shapes == 1 and exact else 0
        zero = rng.random() < .3
        recs = some_records(rng, rng.choice([B, 2 * B, 3 * B + 1, rng.randrange(1, 40)]), n_shapes)
        sharded = world > 1 and not exact
        steps = rng.choice([None, None, 2, 3, 5])
        if sharded and steps is None:
            steps = rng.randint(1, 7)
        o = dict(shapes=n_shapes, chunked=rng.choice([False, True, 1, 4]), zero=zero, exact=exact,
                 shuffle_seed=rng.choice([None, 4]), packed=packed)
        kw = dict(shuffle=rng.random() < .7, shuffle_buffer_size=rng.choice([1, 2, 5, 20]),
                  shuffle_buffer_bytes=rng.choice([None, 12]) if not zero and not packed else None,
                  max_shape_queues=rng.choice([64, n_shapes]), steps_per_epoch=steps)
        seed, pipe = rng.randrange(100), rng.choice(["none", "none", "count", "key", "both"])
        workers, ahead = rng.choice([0, 0, 1, 2, 3]), rng.choice([1, 2, 5])

        def maker(recs=recs, B=B, seed=seed, pipe=pipe, world=world, rank=rank, mode=mode, **over):
            def make():
                src = toy_source(recs, **o)
                ps = toy_pipelines(pipe)
                p = DatasetPlanner(src, context(B, world, rank, seed, mode), PlannerConfig(**{**kw, **over}),
                                   pipeline_composer=PipelineStateComposer(ps) if ps else None)
                return p, SourceBatchDataset(p, src, prefetch_workers=workers, prefetch_batches=ahead)
            return make
        foreign = [maker(recs=recs + [(999, 0, 1)]), maker(seed=seed + 1), maker(B=B * 2),
                   maker(shuffle=not kw["shuffle"]), maker(shuffle_buffer_size=kw["shuffle_buffer_size"] + 1),
                   maker(pipe="count" if pipe != "count" else "key"),
                   maker(steps_per_epoch=(steps or 1) + 1)]
        if exact:
            foreign.append(maker(mode="validate" if mode != "validate" else "test"))

        def body():
            epochs = rng.choice([1, 2, 3])
            ref = reference(maker(), epochs)
            if ref:
                history(maker(), foreign, ref, epochs, 14)
        H.case("history", body, records=recs, mode=mode, world=world, rank=rank, batch=B, source=o, config=kw,
               seed=seed, pipeline=pipe, workers=workers, ahead=ahead)
    for i in range(n_toy):
        toy(i)

    # ------------------------------------------------------------ real files
    def real(i):
        folder = os.path.join(H.scratch, f"r{i}")
        kind, mk, resumable, kw = R.fleet(H, rng, folder)
        if resumable:
            world = rng.choice([1, 1, 2])
            rank = rng.randrange(world)
            B = world * rng.choice([1, 2])
            seq = kind in ("simple_binary", "packed_binary")
            mode = rng.choice(["train", "train", "validate"]) if not (seq and world > 1) else "train"
            over = {}
            if seq and world > 1:
                over["steps_per_epoch"] = rng.randint(1, 4)
            elif rng.random() < .3:
                over["steps_per_epoch"] = rng.randint(1, 6)
            seed = rng.randrange(50)

            def maker(B=B, seed=seed, mode=mode, **o):
                def make():
                    ds = mk(R.ctx(B, world, rank, seed, mode), **{**over, **o})
                    return ds._partitioned_stream, ds._planned_decoder
                return make
            foreign = [maker(seed=seed + 1), maker(B=2 * B), maker(shuffle=not kw["shuffle"]),
                       maker(sample_rate=.5), maker(shuffle_window_size=77)]

            def body():
                epochs = rng.choice([1, 2, 3])
                ref = reference(maker(), epochs)
                if ref:
                    history(maker(), foreign, ref, epochs, 10)
            H.case(f"history on files ({kind})", body, options=kw, world=world, rank=rank, batch=B, mode=mode, seed=seed)
        shutil.rmtree(folder, ignore_errors=True)
    for i in range(n_real):
        real(i)

    # ------------------------------------------------------------ record identity survives the transport
    def trees():
        p = DatasetPlanner(toy_source([(0, 0, 1)]), context(1), PlannerConfig(shuffle=False))
        r = lambda d: tuple(r(d - 1) if d and rng.random() < .4 else rng.choice([1, "a", b"b", None, -3])
                            for _ in range(rng.randrange(4)))
        for _ in range(H.scale(60, 600)):
            e = RecordEnvelope(rng.randrange(9), r(3), rng.randrange(9), rng.choice([None, b"x", 5, "p"]), rng.randrange(99))
            st = p._envelope_to_state(e)
            aslists = lambda v: [aslists(x) for x in v] if isinstance(v, tuple) else v
            for key in (st["record_key"], aslists(st["record_key"])):
                require(p._envelope_from_state({**st, "record_key": key}) == e, "a record changes identity in transport",
                        record=repr(e))
    H.case("record identity", trees)
