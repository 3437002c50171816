"""D03, executable contracts on the real geometry, samplers and file assignment (bounded)."""
import os
from collections import Counter

from .harness import require
from .toys import toy_source, context, some_records


def run(H):
    import numpy as np
    from dataset import core
    from dataset.planner import DatasetPlanner, PlannerConfig
    from dataset.sequential_source import InterleavedSequentialSource
    from dataset.stream import EvaluationBatchPlannerDataset, MapRecordRef
    from utils.training_utils import ResumableSampler
    rng = H.rng
    MODES = ("train", "validate", "test", "export", "visualize")

    # -- geometry ----------------------------------------------------------
    H.bound("geometry", "every geometry with local batch <= 6 and world size <= 9, illegal neighbours, huge sizes")

    def accepted(*a):
        try:
            return core.DatasetRuntimeContext(*a)
        except ValueError:
            return None

    def geom(l, w):
        def body():
            covered = []
            for r in range(w):
                x = accepted(l * w, l, w, r, 5, "train")
                require(x is not None, "a legal geometry is refused")
                i = x.rank_local_identity
                require(i.rank == r, "slice of another rank")
                require(i.slice_stop - i.slice_start == l, "slice has another size than the local batch")
                covered += range(i.slice_start, i.slice_stop)
                require(x.global_contract == accepted(l * w, l, w, 0, 5, "train").global_contract,
                        "ranks disagree about the global contract")
            require(sorted(covered) == list(range(l * w)), "rank slices do not tile the global batch", got=covered)
            for g in range(0, l * w + 3):
                for r in (-1, 0, w - 1, w):
                    x = accepted(g, l, w, r, 0, "train")
                    require((x is not None) == (g == l * w and 0 <= r < w), "geometry check differs",
                            global_batch=g, rank=r, accepted=x is not None)
        H.case("geometry", body, local=l, world=w)
    for l in list(range(1, 7)) + [1 << 40, 1000003]:
        for w in range(1, 10):
            if l > 100:
                def big():
                    xs = [accepted(l * w, l, w, r, 0, "test").rank_local_identity for r in range(w)]
                    require(xs[0].slice_start == 0 and xs[-1].slice_stop == l * w and all(
                        a.slice_stop == b.slice_start for a, b in zip(xs, xs[1:])), "huge slices do not tile")
                H.case("geometry", big, local=l, world=w)
            else:
                geom(l, w)

    def illegal():
        for g, l, w, r in ((0, 0, 1, 0), (-2, -2, 1, 0), (4, -4, -1, 0), (4, 4, 0, 0), (4, 2, 1, 0), (4, 4, 2, 0),
                           (5, 2, 2, 0), (-4, -2, 2, 0), (0, 0, 2, 1)):
            require(accepted(g, l, w, r, 0, "train") is None, "an illegal geometry is accepted", geometry=(g, l, w, r))
        for seed, ok in ((-(1 << 63), True), ((1 << 63) - 1, True), (1 << 63, False), (-(1 << 63) - 1, False)):
            require((accepted(2, 2, 1, 0, seed, "train") is not None) == ok, "seed range differs", seed=seed)
        for mode in MODES + ("", "Train", "eval", "none", "trainvalidate"):
            require((accepted(2, 2, 1, 0, 0, mode) is not None) == (mode in MODES), "mode check differs", mode=mode)
        x = core.single_process_dataset_context(7, seed=3, mode="test")
        require((x.global_batch_size, x.local_batch_size, x.world_size, x.rank, x.seed, x.mode) == (7, 7, 1, 0, 3, "test"),
                "single process context differs")
    H.case("illegal geometry", illegal)

    # -- the plan of a batch is cut the same way on every rank ---------------
    H.bound("plans", "random plans of up to 40 records, world sizes 1-4, train and evaluation, padded tails")
    for _ in range(H.scale(60, 800)):
        w, l, n, nsh = rng.randint(1, 4), rng.randint(1, 3), rng.randrange(41), rng.randint(1, 3)
        mode = rng.choice(["train", "validate"])
        recs = some_records(rng, n, nsh)
        cfg = PlannerConfig(shuffle=rng.random() < .5, shuffle_buffer_size=rng.choice([1, 5, 64]))

        def body():
            def plans(world):
                out = []
                for r in range(world):
                    p = DatasetPlanner(toy_source(recs, shapes=nsh), context(l * w, world, r, 3, mode), cfg)
                    mine = []
                    while (b := p.next_batch()) is not None:
                        e, mask = p.local_slice(b)
                        require(len(e) == l * w // world == len(mask), "local slice has another size")
                        mine.append([(x.record_key, bool(m)) for x, m in zip(e, mask)])
                    out.append(mine)
                return out
            whole = plans(1)[0]
            parts = plans(w)
            require(all(len(p) == len(whole) for p in parts), "ranks have different numbers of batches")
            for b in range(len(whole)):
                joined = [x for p in parts for x in p[b]]
                require(joined == whole[b], "rank slices do not add up to the global batch", batch=b)
        H.case("planned batch", body, world=w, local=l, records=recs, mode=mode)

    # -- map-style evaluation ------------------------------------------------
    class MapSet:
        is_fixed_side_input = False

        def __init__(self, shapes):
            self.shapes = shapes

        def __len__(self):
            return len(self.shapes)

        def map_record_ref(self, i):
            return MapRecordRef("d", i, ("map-row", b"x" * 32, "row", (i,)), (self.shapes[i],))

        def __getitem__(self, i):
            s = 5
            return {"board_size": np.array([s, s], dtype=np.int8), "board_input": np.zeros((2, s, s), dtype=np.int8),
                    "stm_input": np.array([1.0], dtype=np.float32),
                    "value_target": np.array([i, 0, 0], dtype=np.float32),
                    "policy_target": np.zeros((s, s), dtype=np.float32)}

    def try_map(shapes, w, l):
        def body():
            ds = MapSet(shapes)
            got = []
            for r in range(w):
                mine = []
                for e in EvaluationBatchPlannerDataset(ds, context(l * w, w, r, 0, "validate")):
                    require(len(e.is_real) == l and len(e.sample_keys) == l, "map evaluation slice has another size")
                    ids = [k[3][0] for k in e.sample_keys]
                    if "value_target" in e.data:
                        require([int(v[0]) for v in e.data["value_target"]] == ids, "rows differ from their keys")
                    mine.append((ids, [bool(x) for x in e.is_real], e.token.is_last))
                got.append(mine)
            require(len({len(g) for g in got}) == 1, "ranks see different numbers of evaluation batches")
            real = [i for g in got for ids, mask, _ in g for i, m in zip(ids, mask) if m]
            require(Counter(real) == Counter(range(len(shapes))), "evaluation rows are not shared exactly once", real=real)
            for b in range(len(got[0])):
                allids = [i for g in got for i in g[b][0]]
                require(len({shapes[i] for i in allids}) == 1, "mixed shapes in an evaluation batch")
                require(all(g[b][2] == (b == len(got[0]) - 1) for g in got), "last batch is flagged wrongly")
        H.case("map evaluation", body, shapes=shapes, world=w, local=l)
    ok = True
    try:
        list(EvaluationBatchPlannerDataset(MapSet([0]), context(1, 1, 0, 0, "validate")))
    except Exception as e:
        ok = False
        H.skipped.append(f"map evaluation: {e}")
    if ok:
        H.bound("map evaluation", "up to 23 rows, 3 shapes, world sizes 1-4")
        for _ in range(H.scale(30, 300)):
            try_map([rng.randrange(3) for _ in range(rng.randint(1, 23))], rng.randint(1, 4), rng.randint(1, 3))

    # -- map-style sampler -----------------------------------------------------
    H.bound("samplers", "lengths 0-60, world sizes 1-7, 3 epochs, with and without shuffling")

    class Src:
        def __init__(self, n):
            self.n = n

        def __len__(self):
            return self.n
    for _ in range(H.scale(150, 2000)):
        n, w, seed, sh = rng.randrange(61), rng.randint(1, 7), rng.randrange(1 << 30), rng.random() < .7

        def body():
            samplers = [ResumableSampler(Src(n), shuffle=sh, seed=seed, rank=r, world_size=w) for r in range(w)]
            orders = []
            for epoch in range(3):
                lists = [list(s) for s in samplers]
                require(all(len(x) == n // w for x in lists), "ranks draw different numbers of entries",
                        sizes=[len(x) for x in lists])
                flat = [i for x in lists for i in x]
                require(len(set(flat)) == len(flat), "an entry is drawn twice", entries=lists)
                require(all(0 <= i < n for i in flat), "an entry outside the data")
                single = list(_at_epoch(ResumableSampler(Src(n), shuffle=sh, seed=seed), epoch))
                require(Counter(single) == Counter(range(n)), "the shared order is not a permutation")
                joined = [lists[k % w][k // w] for k in range(n // w * w)]
                require(joined == single[:len(joined)], "ranks do not interleave one shared order", epoch=epoch)
                orders.append(single)
                for s in samplers:
                    s.advance_yield_epoch()
        H.case("sampler", body, length=n, world=w, seed=seed, shuffle=sh)

    def bad_sampler():
        for r, w in ((-1, 1), (1, 1), (2, 2), (0, 0), (0, -1)):
            try:
                ResumableSampler(Src(3), shuffle=False, seed=0, rank=r, world_size=w)
            except ValueError:
                continue
            require(False, "an illegal sampler rank is accepted", rank=r, world=w)
    H.case("sampler identity", bad_sampler)

    # -- files of unknown-length streams -----------------------------------------
    H.bound("file assignment", "1-14 files of random (also equal and empty) sizes, world sizes 1-7, 3 epochs and cycles")
    base = os.path.join(H.scratch, "files")
    os.makedirs(base, exist_ok=True)

    def source(paths, sh, seed):
        return InterleavedSequentialSource(
            paths, format_id="toy", schema_version=1, seed=seed, shuffle=sh, sample_rate=1.0, active_streams=2,
            read_quantum=1, output_shapes=[(5, 5)], open_file=lambda p: open(p, "rb"),
            read_entry=lambda s: s.read(1), shape_of=lambda e: (5, 5), materialize_entry=lambda *a: {})
    for t in range(H.scale(60, 600)):
        k, w, sh, seed = rng.randint(1, 14), rng.randint(1, 7), rng.random() < .5, rng.randrange(999)
        sizes = [rng.choice([0, 1, 2, 5, 5, 5, 30, rng.randrange(60)]) for _ in range(k)]
        d = os.path.join(base, str(t))
        os.makedirs(d)
        paths = []
        for j, s in enumerate(sizes):
            paths.append(os.path.join(d, f"f{j}"))
            with open(paths[-1], "wb") as f:
                f.write(b"x" * s)

        def body():
            for sharded in (True, False):
                srcs = []
                for r in range(w):
                    s = source(paths, sh, seed)
                    try:
                        s.configure_distributed(w, r, rank_sharded=sharded)
                    except ValueError:
                        require(sharded and k < w, "a legal distribution is refused")
                        return
                    require(not (sharded and k < w), "fewer files than ranks are accepted")
                    srcs.append(s)
                for epoch in range(2):
                    for cycle in range(2):
                        parts = [s._file_order(epoch, cycle, r) for r, s in enumerate(srcs)]
                        if sharded:
                            flat = [f for p in parts for f in p]
                            require(Counter(flat) == Counter(range(k)), "a file is with no or several ranks", parts=parts)
                            require(all(parts), "a rank has no file", parts=parts)
                        else:
                            require(all(p == parts[0] for p in parts), "ranks read different orders", parts=parts)
                            require(Counter(parts[0]) == Counter(range(k)), "files are missing or repeated", order=parts[0])
        H.case("file assignment", body, sizes=sizes, world=w, shuffle=sh, seed=seed)


def _at_epoch(s, e):
    s._yield_epoch = e
    return s
