"""D11, executable contracts: prefetching readers with forced completion orders against the synchronous reader (bounded)."""
import os
import threading
import time

from .harness import require
from . import cpp, realdata as R
from .toys import toy_source, context, some_records


class Boom(Exception):
    pass


def scripted_pool(g):
    """A pool whose tasks finish in an order chosen by g (really: are run in that order, whenever the reader comes by)."""
    from concurrent.futures import Executor, Future

    class F(Future):
        def result(self, timeout=None):
            self.pool.step(need=self)
            return super().result(timeout)

        def exception(self, timeout=None):
            self.pool.step(need=self)
            return super().exception(timeout)

        def done(self):
            self.pool.step()
            return super().done()

    class Pool(Executor):
        def __init__(self, max_workers=None, *a, **k):
            self.workers, self.tasks, self.lock = max_workers or 1, [], threading.RLock()
            self.eager = g.random()

        def submit(self, fn, /, *a, **k):
            f = F()
            f.pool = self
            with self.lock:
                self.tasks.append((f, fn, a, k))
            self.step()
            return f

        def step(self, need=None, all=False):
            """Finish some tasks; the first `workers` queued ones are running, any of them may finish next."""
            with self.lock:
                while self.tasks and (all or (need is not None and any(t[0] is need for t in self.tasks)) or g.random() < self.eager):
                    f, fn, a, k = self.tasks.pop(g.randrange(min(self.workers, len(self.tasks))))
                    try:
                        f.set_result(fn(*a, **k))
                    except BaseException as e:
                        f.set_exception(e)

        def shutdown(self, wait=True, *, cancel_futures=False):
            self.step(all=True)
    return Pool


def run(H):
    cpp.build(H, "dataset_planner_cpp")
    import random
    import concurrent.futures
    import dataset.source_dataset as module
    from dataset.planner import DatasetPlanner, PlannerConfig
    from dataset.source_dataset import SourceBatchDataset
    rng = H.rng
    n_toy, n_real = H.scale(500, 8000), H.scale(30, 500)
    H.bound("toy readers", f"{n_toy} random small epochs, 1-5 workers, depth 1-12, forced completion orders, failing batches, abandoned readers")
    H.bound("real readers", f"{n_real} batched_processed_katago_numpy datasets, 1-4 threads, depth 1-8, against no threads")

    def simple(b):
        return (b.data["ids"], tuple(b.sample_keys), tuple(bool(x) for x in b.is_real), b.token.epoch, b.token.batch_index, b.token.batch.is_last,
                b.data.get("final"))

    def base(x):
        return (x[0], x[1], x[2], x[3], x[4], x[5], x[6])

    for t in range(n_toy):
        n = rng.choice([0, 1, 2, 5, 9, 16, 30, 60])
        n_shapes = rng.choice([1, 1, 2, 3])
        records = some_records(rng, n, n_shapes)
        world = rng.choice([1, 1, 1, 2])
        gb = world * rng.randint(1, 4)
        mode = rng.choice(["train", "train", "validate"])
        workers, depth = rng.randint(1, 5), rng.choice([1, 2, 3, 4, 5, 7, 12])
        style = rng.choice(["one", "many", "many+keys", "one+keys"])
        ahead = rng.random() < .5
        steps = rng.choice([None, None, None, 2])
        cfg = dict(shuffle=rng.random() < .5, shuffle_buffer_size=rng.choice([1, 3, 50]))
        resumable = rng.random() < .8
        packed, chunk = 0, rng.choice([False, 2, True])
        order_seed = rng.randrange(1 << 30)
        fail_at = rng.choice([None, None, None, rng.randrange(0, 6)])
        fail_in = rng.choice(["decode", "finalize", "plan", "keys"])
        stop_after = rng.choice([None, None, rng.randrange(0, 5)])

        def make(workers, fail=None, gate=None, log=None):
            src = toy_source(records, shapes=n_shapes, chunked=chunk, resumable=resumable, shuffle_seed=order_seed % 7)
            mat = src.materialize_batch
            order = {}

            def one(envs):
                # the batch is recognised by its content; the number of a batch in the epoch is not visible to a worker
                if gate:
                    gate(tuple(e.payload for e in envs))
                if fail and fail_in == "decode" and tuple(e.record_key for e in envs) == fail:
                    raise Boom()
                return mat(envs)
            src.materialize_batch = one
            if style == "many":
                src.materialize_batches = lambda batches: [one(b) for b in batches]
            if style == "many+keys":
                src.materialize_batches_with_keys = lambda batches: [(one(b), tuple(e.record_key for e in b)) for b in batches]
                src.materialize_batch_with_keys = lambda b: (one(b), tuple(e.record_key for e in b))
            if style == "one+keys":
                def keys(envs):
                    if fail and fail_in == "keys" and tuple(e.record_key for e in envs) == fail:
                        raise Boom()
                    return tuple(e.record_key for e in envs)
                src.sample_keys_for_batch = keys

            def finalize(data):
                if fail and fail_in == "finalize" and tuple(data["keys"]) == fail:
                    raise Boom()
                require("final" not in data, "a batch is finalized once")
                return {**data, "final": sum(data["ids"])}
            planner = DatasetPlanner(src, context(gb, world, world - 1, 3, mode), PlannerConfig(steps_per_epoch=steps, **cfg))
            nxt = planner.next_transactional_batch
            if log is not None:
                def counted():
                    if log.get("fail plan at") is not None and log["planned"] == log["fail plan at"]:
                        raise Boom()
                    r = nxt()
                    log["planned"] += r is not None
                    log["peak"] = max(log["peak"], log["planned"] - log["published"])
                    return r
                planner.next_transactional_batch = counted
            return planner, SourceBatchDataset(planner, src, finalize_batch=finalize, prefetch_workers=workers, prefetch_batches=depth,
                                               finalize_in_prefetch=ahead), src

        def body():
            planner, data, _ = make(0)
            epochs = 2
            want = []
            try:
                for _ in range(epochs):
                    got = []
                    for b in data:
                        if mode == "train":
                            planner.commit_batch(b.token)
                        got.append(simple(b))
                    want.append(got)
            except RuntimeError as e:
                if "produced no global batch" in str(e) or "queue limit" in str(e):
                    try:
                        _, d, _ = make(workers)
                        for _ in range(len(want) + 1):
                            for b in d:
                                if mode == "train":
                                    d.planner.commit_batch(b.token)
                    except RuntimeError as e2:
                        require(str(e) == str(e2), "the same refusal with and without workers")
                        return
                    require(False, "an empty epoch is refused with workers too")
                raise
            for got in want:
                require([x[4] for x in got] == list(range(len(got))) and [x[5] for x in got] == [False] * (len(got) - 1) + [True],
                        "batches are numbered in order and the last says so", got=[x[4:6] for x in got])

            # workers finishing in a forced order: chunk tasks block until their turn in a random priority, with a short timeout
            g = random.Random(order_seed)
            prio = {}
            lock = threading.Lock()
            waiting = []

            def gate(key):
                p = g.random()
                with lock:
                    waiting.append(p)
                end = time.monotonic() + .002
                while time.monotonic() < end:
                    with lock:
                        if p == min(waiting):
                            break
                    time.sleep(.0002)
                with lock:
                    waiting.remove(p)
            log = {"planned": 0, "published": 0, "peak": 0}
            planner, data, src = make(workers, gate=None if scripted else gate, log=log)
            for e in range(epochs):
                got = []
                log["planned"] = log["published"] = 0
                for b in data:
                    if mode == "train":
                        planner.commit_batch(b.token)
                    got.append(simple(b))
                    log["published"] += 1
                require(got == want[e], "with workers the same batches come in the same order", epoch=e, got=got, want=want[e])
            require(log["peak"] <= depth + 1, "no more batches are planned ahead than configured", peak=log["peak"], depth=depth)

            # a batch fails
            flat = want[0]
            if fail_at is not None and fail_at < len(flat):
                if fail_in == "keys" and style != "one+keys":
                    return
                log = {"planned": 0, "published": 0, "peak": 0}
                if fail_in == "plan":
                    log["fail plan at"] = fail_at
                planner, data, src = make(workers, fail=tuple(flat[fail_at][1]), log=log)
                got = []
                try:
                    for b in data:
                        if mode == "train":
                            planner.commit_batch(b.token)
                        got.append(simple(b))
                        log["published"] += 1
                except Boom:
                    pass
                else:
                    require(False, "the error of a worker reaches the caller", got=got)
                chunk_size = max(1, depth // max(2, workers))
                require(got == flat[:len(got)], "before an error the batches come in order", got=got, want=flat)
                if fail_in != "plan":
                    require(len(got) <= fail_at, "nothing later than the failing batch is published", got=len(got), fail_at=fail_at)
                    if not (fail_in == "finalize" and not ahead):
                        require(len(got) > fail_at - depth, "the error does not overtake earlier chunks", got=len(got), fail_at=fail_at)
                        require(fail_at - len(got) < max(chunk_size, 1), "every earlier chunk is published before the error", got=len(got),
                                fail_at=fail_at, chunk=chunk_size)
                    else:
                        require(len(got) == fail_at, "every earlier batch is published before the error", got=len(got), fail_at=fail_at)
                else:
                    require(len(got) <= fail_at, "nothing beyond the failing plan is published", got=len(got))
                continue_after(planner, src, resumable, mode, flat, got, workers)
            elif stop_after is not None and stop_after < len(flat):
                planner, data, src = make(workers)
                it, got = iter(data), []
                for _ in range(stop_after):
                    b = next(it)
                    if mode == "train":
                        planner.commit_batch(b.token)
                    got.append(simple(b))
                extra = None
                if mode == "train" and rng.random() < .5 and stop_after < len(flat):
                    extra = next(it)             # delivered but never committed
                it.close()
                if not got and extra is None:
                    return                       # never started
                require(got == flat[:stop_after], "an abandoned reader delivered the first batches")
                continue_after(planner, src, resumable, mode, flat, got, workers)

        def continue_after(planner, src, resumable, mode, flat, got, workers):
            """What was planned but not published (or published but not committed) must come again."""
            if not resumable:
                require(src.closed == 1, "the source of a one-way reader is closed", closed=src.closed)
                return
            if len(got) == len(flat):
                return
            # a fresh reader over the same planner, without the fault
            planner.__dict__.pop("next_transactional_batch", None)
            clean = toy_source(records, shapes=n_shapes)
            data = SourceBatchDataset(planner, clean, finalize_batch=lambda d: {**d, "final": sum(d["ids"])}, prefetch_workers=0)
            rest = []
            for b in data:
                if mode == "train":
                    planner.commit_batch(b.token)
                rest.append(simple(b))
            require([base(x) for x in got + rest] == [base(x) for x in flat], "nothing planned but unpublished counts as consumed",
                    got=[x[4] for x in got], rest=[x[4] for x in rest], want=len(flat))
        scripted = rng.random() < .6
        if scripted and getattr(module, "ThreadPoolExecutor", None) is concurrent.futures.ThreadPoolExecutor:
            real, module.ThreadPoolExecutor = module.ThreadPoolExecutor, scripted_pool(random.Random(order_seed))
            try:
                H.case("toy readers", body, scripted=True, n=n, world=world, batch=gb, mode=mode, workers=workers, depth=depth, style=style,
                       ahead=ahead, config=cfg, steps=steps, fail_at=fail_at, fail_in=fail_in, stop_after=stop_after, resumable=resumable)
            finally:
                module.ThreadPoolExecutor = real
            continue
        H.case("toy readers", body, n=n, world=world, batch=gb, mode=mode, workers=workers, depth=depth, style=style, ahead=ahead, config=cfg,
               steps=steps, fail_at=fail_at, fail_in=fail_in, stop_after=stop_after, resumable=resumable)

    # ------------------------------------------------ real datasets
    for t in range(n_real):
        folder = os.path.join(H.scratch, f"real{t}")
        _, make, _, kw = R.fleet(H, rng, folder, kinds=["batched_processed_katago_numpy"])
        threads, depth, mode, seed = rng.randint(1, 4), rng.choice([1, 2, 3, 8]), rng.choice(["train", "validate"]), rng.randrange(99)
        batch = rng.randint(1, 3)

        def body():
            def read(**over):
                ds = make(R.ctx(batch, seed=seed, mode=mode), **over)
                stream = ds._partitioned_stream
                out = []
                for _ in range(2):
                    try:
                        for b in ds:
                            if mode == "train":
                                stream.commit_batch(b.token)
                            out.append(R.envelope(b))
                    except RuntimeError as e:
                        if "produced no global batch" in str(e):
                            out.append(None)
                            break
                        raise
                return out
            a, b = read(prefetch_threads=0), read(prefetch_threads=threads, prefetch_batches=depth)
            require(len(a) == len(b), "the same number of batches with threads", got=len(b), want=len(a))
            for i, (x, y) in enumerate(zip(a, b)):
                if x is None or y is None:
                    require(x is y, "the same refusal with threads")
                    continue
                d = R.differs(x, y)
                require(d is None, "the same batches with threads", index=i, part=d)
        H.case("real readers", body, config=kw, threads=threads, depth=depth, mode=mode, batch=batch)
