"""D07, executable contracts: real interleaved sources against an independent interleaver (bounded)."""
import copy
import os
import pickle

from .harness import require
from . import cpp, realdata as R


# ---------------------------------------------------------------- a toy format
# one record: length of padding, file, entry, shape tag (9 = not usable), subrecords, padding
def toy_record(f, e, shape, subs, pad):
    return bytes([pad, f, e, shape, subs]) + b"\xee" * pad


def exact(stream, n):
    out = b""
    while len(out) < n:
        b = stream.read(n - len(out))
        if not b:
            raise EOFError("toy record ends early")
        out += b
    return out


def toy_read(stream):
    head = exact(stream, 5)
    exact(stream, head[0])
    return tuple(head[1:])


def toy_raw(stream):
    head = exact(stream, 5)
    return head + exact(stream, head[0])


SHAPES = {0: (5, 5), 1: (7, 7), 2: (9, 9)}


class NoPeek:
    def __init__(self, f):
        self.f = f

    def __getattr__(self, k):
        if k == "peek":
            raise AttributeError(k)
        return getattr(self.f, k)


def reference(order, lengths, usable, streams, quantum):
    """The documented schedule: [(file, entry, subrecord)]. usable(f, e) lists the admitted records of the entry."""
    queue, slots, out = list(order), [], []
    while queue and len(slots) < streams:
        slots.append([queue.pop(0), 0, []])
    turn = used = 0
    while slots:
        s = slots[turn]
        if s[2]:
            out.append((s[0], s[1] - 1, s[2].pop(0)))
            continue
        if s[1] == lengths[s[0]]:
            used = 0
            if queue:
                slots[turn] = [queue.pop(0), 0, []]
            else:
                del slots[turn]
                turn = turn if turn < len(slots) else 0
            continue
        e = s[1]
        s[1] += 1
        used += 1
        if used == quantum:
            used, turn = 0, (turn + 1) % len(slots)
        subs = list(usable(s[0], e))
        if subs:
            out.append((s[0], e, subs.pop(0)))
            s[2] = subs
    return out


def run(H):
    cpp.build(H, "dataset_planner_cpp")
    import numpy as np
    from dataset.sequential_source import InterleavedSequentialSource
    from dataset.core import sample_is_admitted
    rng = H.rng
    n_toy, n_real = H.scale(350, 4000), H.scale(60, 800)
    H.bound("toy sources", f"{n_toy} random sets of 1-6 files of 0-8 entries, 0-4 subrecords, 1-4 streams, quantum 1-5, cut at every record")
    H.bound("binary sources", f"{n_real} random sets of simple_binary / packed_binary files, ranks 1-3")

    class Log:
        def __init__(self):
            self.open, self.peak, self.opened = set(), 0, []

    def make(paths, cfg, log):
        def open_file(p):
            f = open(p, "rb")
            if not cfg["peek"]:
                f = NoPeek(f)
            log.open.add(id(f))
            log.opened.append(f)
            log.peak = max(log.peak, len(log.open))
            close = f.close

            class Tracked:
                def __getattr__(self, k):
                    return getattr(f, k)

                def close(self):
                    log.open.discard(id(f))
                    close()
            return Tracked()

        def materialize(entry, key, aug, sub=None):
            n = SHAPES[entry[2]][0]
            return {"board_size": np.array([n, n]), "board_input": np.full((2, n, n), entry[0], np.int8),
                    "stm_input": np.array([entry[1]], np.float32), "value_target": np.array([aug % 1000, -1 if sub is None else sub, 0], np.float32),
                    "policy_target": np.zeros((n, n), np.float32)}
        raw = cfg["raw"]
        unraw = lambda b: tuple(b[1:5])
        fields = (lambda x: unraw(x)) if raw else (lambda x: x)
        return InterleavedSequentialSource(
            paths, format_id="toy", schema_version=1, seed=cfg["seed"], shuffle=cfg["shuffle"], sample_rate=cfg["rate"],
            active_streams=cfg["streams"], read_quantum=cfg["quantum"], output_shapes=set(SHAPES.values()), open_file=open_file,
            read_entry=toy_read, shape_of=lambda x: SHAPES.get(fields(x)[2]), materialize_entry=materialize,
            read_raw_entry=toy_raw if raw else None, decode_raw_entry=unraw if raw else None,
            subrecord_count=(lambda x: fields(x)[3]) if cfg["sub"] else None)

    def drain(src, cur, limit=None):
        out = []
        while limit is None or len(out) < limit:
            env, cur2 = src.next_envelope(cur)
            require(cur2 is cur, "the cursor passed in is the one advanced")
            if env is None:
                return out, True
            out.append(env)
        return out, False

    def ident(src, env, sub):
        """(file, entry, subrecord, cycle) out of the key."""
        ns, fk, fmt, a = env.record_key
        f = [d.file_key for d in src.descriptors].index(fk)
        base = 2 if sub else 1
        cyc = 0 if len(a) == base else a[0]
        a = a[-base:]
        return f, a[0], (a[1] if sub else 0), cyc

    def same(a, b):
        return [(e.source_id, e.record_key, e.shape_code, e.payload, e.resident_bytes) for e in a] == \
            [(e.source_id, e.record_key, e.shape_code, e.payload, e.resident_bytes) for e in b]

    for t in range(n_toy):
        folder = os.path.join(H.scratch, f"toy{t}")
        os.makedirs(folder)
        nf = rng.randint(1, 6)
        cfg = dict(peek=rng.random() < .5, raw=rng.random() < .5, sub=rng.random() < .6, seed=rng.randrange(99), shuffle=rng.random() < .6,
                   rate=rng.choice([1.0, 1.0, .5]), streams=rng.randint(1, 4), quantum=rng.randint(1, 5))
        recs = [[(rng.choice([0, 1, 2, 9]) if rng.random() < .4 else 0, rng.randint(0, 4)) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
                for _ in range(nf)]
        paths = []
        for f, rs in enumerate(recs):
            p = os.path.join(folder, f"f{f}.bin")
            with open(p, "wb") as fh:
                for e, (sh, su) in enumerate(rs):
                    fh.write(toy_record(f, e, sh, su, rng.choice([0, 1, 3, 40])))
            paths.append(p)
        log = Log()
        epoch, cycle = rng.randrange(4), rng.choice([0, 0, 1, 5])
        lengths = [len(r) for r in recs]

        def usable(f, e):
            sh, su = recs[f][e]
            return 0 if sh == 9 else su if cfg["sub"] else 1
        box = {}

        def body():
            src = make(paths, cfg, log)
            src.configure_distributed(1, 0, rank_sharded=False)
            cur = src.start_cycle(epoch, cycle, 0)
            require(src._active_epoch == epoch, "the epoch being read is known")
            order = list(cur.file_order)
            require(sorted(order) == list(range(nf)), "every file is scheduled once", order=order)
            if not cfg["shuffle"]:
                require(order == list(range(nf)), "without shuffling files are read in their order", order=order)
            got, _ = drain(src, cur)
            require(not log.open, "every file is closed at the end")
            require(log.peak <= cfg["streams"], "no more open readers than allowed", peak=log.peak)
            aug = src._augmentation_epoch(cur)
            def admitted(f, e):
                out = []
                for s in range(usable(f, e)):
                    base = (e, s) if cfg["sub"] else (e,)
                    key = ("sequential", src.descriptors[f].file_key, "toy", base if cycle == 0 else (cycle, *base))
                    if sample_is_admitted(cfg["rate"], cfg["seed"], aug, key):
                        out.append(s)
                return out
            want = [(*x, cycle) for x in reference(order, lengths, admitted, cfg["streams"], cfg["quantum"])]
            seen = [ident(src, x, cfg["sub"]) for x in got]
            require(len(set(seen)) == len(seen), "no record is delivered twice", seen=seen)
            require(set(seen) == set(want), "every record of every file is delivered", missing=set(want) - set(seen), extra=set(seen) - set(want))
            require(seen == want, "records come in the documented turn order", got=seen, want=want)
            for x, (f, e, s, _) in zip(got, seen):
                require(x.source_id == f and tuple(x.payload.raw_entry[1:5]) == (f, e, *recs[f][e]) and len(x.payload.raw_entry)
                        == 5 + x.payload.raw_entry[0] and x.payload.augmentation_epoch == aug
                        and x.payload.subrecord == (s if cfg["sub"] else None), "a record carries the bytes of its entry", record=(f, e, s))
                require(src.shape_codes[SHAPES[recs[f][e][0]]] == x.shape_code, "a record carries the code of its shape", record=(f, e, s))
                require(src.restore_payload(pickle.loads(pickle.dumps(src.save_payload(x.payload)))) == x.payload, "payloads survive a save")
            # a fresh object, another reading rhythm, other cursors in between
            src2 = make(paths, cfg, log)
            src2.configure_distributed(1, 0, rank_sharded=False)
            c1, c2 = src2.start_cycle(epoch, cycle, 0), src2.start_cycle(epoch + 1, cycle, 0)
            mixed = []
            while True:
                for _ in range(rng.randrange(3)):
                    src2.next_envelope(c2)
                env, _ = src2.next_envelope(c1)
                if env is None:
                    break
                mixed.append(env)
            src2.close_cursor(c2)
            require(same(mixed, got), "the order depends only on seed, epoch, cycle and files")
            # batches
            shape0 = [x for x in got if x.shape_code == 0]
            if shape0:
                pick = [rng.choice(shape0) for _ in range(rng.randint(1, 5))]
                b = src2.materialize_batch(pick)
                for i, x in enumerate(pick):
                    f, e, s, _ = ident(src, x, cfg["sub"])
                    require(int(np.asarray(b["board_input"])[i].flat[0]) == f and int(np.asarray(b["stm_input"])[i].flat[0]) == e
                            and [int(v) for v in np.asarray(b["value_target"])[i][:2]] == [aug % 1000, s if cfg["sub"] else -1],
                            "a batch row is the record of its envelope", record=(f, e, s), row=i)
                import dataclasses
                x = pick[0]
                for bad in (dataclasses.replace(x, record_key=("sequential", x.record_key[1], "toy", x.record_key[3][:-1] + (77,)) if cfg["sub"]
                                                else ("sequential", b"\0" * 32, "toy", x.record_key[3])),
                            dataclasses.replace(x, source_id=(x.source_id + 1) if x.source_id + 1 < nf else 99)):
                    try:
                        src2.materialize_batch([bad])
                    except RuntimeError:
                        continue
                    require(False, "an envelope whose key is not its record's is refused")
            # another cycle has other keys
            c3 = src2.start_cycle(epoch, cycle + 1, 0)
            other, _ = drain(src2, c3)
            require(not {x.record_key for x in other} & {x.record_key for x in got}, "records of another cycle have other keys")
            # cut anywhere, continue in a fresh object
            cuts = list(range(len(got) + 1)) if len(got) < 9 else rng.sample(range(len(got) + 1), 9)
            for cut in cuts:
                a = make(paths, cfg, log)
                a.configure_distributed(1, 0, rank_sharded=False)
                ca = a.start_cycle(epoch, cycle, 0)
                head, _ = drain(a, ca, cut)
                st = pickle.loads(pickle.dumps(a.save_cursor(ca)))
                if cut == len(got):
                    drain(a, ca)
                b = make(paths, cfg, log)
                b.configure_distributed(1, 0, rank_sharded=False)
                before = len(log.open)
                cb = b.restore_cursor(copy.deepcopy(st))
                require(len(log.open) - before == len(cb.active) <= cfg["streams"], "restoring leaves only the active readers open")
                require(b.save_cursor(cb) == st, "a restored cursor saves as it was saved", cut=cut)
                tail, _ = drain(b, cb)
                require(same(head + tail, got), "a restored cursor continues with the very next record", cut=cut,
                        got=[ident(src, x, cfg["sub"]) for x in tail], want=seen[cut:])
                rest, _ = drain(a, ca)
                require(same(head + rest, got), "saving does not disturb reading", cut=cut)
                spoil(b, st, cut)
            require(not log.open, "every file is closed at the end")

        def spoil(src, st, cut):
            n = len(st["active"])
            muts = [("schema", "x"), ("turn", max(n, 1)), ("turn", -1), ("quantum_used", cfg["quantum"] if n else 1), ("quantum_used", -1),
                    ("next_file_position", nf + 1), ("next_file_position", -1), ("file_order", st["file_order"][1:]),
                    ("file_order", [0] * (nf + 1)), ("epoch", "soon"), ("active", None)]
            if nf > 1:
                muts.append(("file_order", st["file_order"][1:] + st["file_order"][:1]))
            if n:
                muts.append(("active", st["active"] + [st["active"][0]]))
                waiting = [f for f in st["file_order"][st["next_file_position"]:]]
                for ch in [("entry_index", -1), ("byte_offset", -1)] + ([("descriptor_index", waiting[0])] if waiting else []):
                    muts.append(("active", [{**st["active"][0], ch[0]: ch[1]}] + st["active"][1:]))
                p = st["active"][0]["pending"]
                if p:
                    for ch in (("next_subrecord", p["subrecord_count"]), ("next_subrecord", 0), ("subrecord_count", p["subrecord_count"] + 1),
                               ("shape_code", 1 - min(1, p["shape_code"])), ("raw_entry", b""), ("entry_index", p["entry_index"] + 1)):
                        muts.append(("active", [{**st["active"][0], "pending": {**p, ch[0]: ch[1]}}] + st["active"][1:]))
            k, v = rng.choice(muts)
            before = len(log.open)
            try:
                cur = src.restore_cursor({**copy.deepcopy(st), k: v})
            except ValueError:
                require(len(log.open) == before, "a refused position leaves no file open", field=k, value=v)
                return
            src.close_cursor(cur)
            require(False, "a position that cannot be one is refused", field=k, value=v, state=st)
        H.case("toy source", body, config=cfg, records=recs, epoch=epoch, cycle=cycle)

        def truncated():
            f = rng.choice([i for i in range(nf) if lengths[i]])
            data = open(paths[f], "rb").read()
            cut = data[:-1]
            p2 = os.path.join(folder, "short.bin")
            with open(p2, "wb") as fh:
                fh.write(cut)
            src = make([p2], cfg, log)
            cur = src.start_epoch(epoch, 0)
            try:
                got, _ = drain(src, cur)
            except RuntimeError as e:
                require("truncated" in str(e) or "consumed no bytes" in str(e), "a truncated file is reported as such", error=str(e))
                src.close_cursor(cur)
                return
            require(False, "a truncated file is reported", delivered=len(got), entries=lengths[f])
        if any(lengths):
            H.case("truncated file", truncated, config=cfg, records=recs)

        def sharded():
            w = rng.randint(1, nf)
            seen = []
            for r in range(w):
                src = make(paths, {**cfg, "rate": 1.0}, log)
                src.configure_distributed(w, r, rank_sharded=True)
                cur = src.start_cycle(epoch, cycle, r)
                got, _ = drain(src, cur)
                seen += [ident(src, x, cfg["sub"])[:3] for x in got]
            want = {(f, e, s) for f in range(nf) for e in range(lengths[f]) for s in range(usable(f, e))}
            require(len(seen) == len(set(seen)) and set(seen) == want, "the ranks together read every record once", world=w,
                    missing=want - set(seen), repeated=len(seen) - len(set(seen)))
        H.case("rank shards", sharded, config=cfg, records=recs, epoch=epoch)
        for f in os.listdir(folder):
            os.remove(os.path.join(folder, f))

    # ------------------------------------------------------------ the real binary formats
    for t in range(n_real):
        folder = os.path.join(H.scratch, f"bin{t}")
        os.makedirs(folder)
        kind = rng.choice(["simple_binary", "packed_binary"])
        lz4 = rng.random() < .25
        sizes = [5, 7, 9]
        recs, paths = [], []
        for f in range(rng.randint(1, 5)):
            rs = []
            for e in range(rng.choice([1, 2, 4, 7])):
                n = rng.choice(sizes + [11])           # 11: a size the set does not admit
                if kind == "simple_binary":
                    rs.append((n, 1, R.random_simple(rng, n, rng.choice([0, 1, 4]))))
                else:
                    g = rng.randrange(0, 4)
                    rs.append((n, None, R.random_packed(rng, n, rng.choice([0, 1, 4]), groups=g, tag=f)))
            recs.append(rs)
            paths.append(os.path.join(folder, f"f{f}" + (".lz4" if lz4 else ".bin" if kind == "simple_binary" else ".binpack")))
            R.write_binary(paths[-1], [x[2] for x in rs])
        streams, quantum, seed = rng.randint(1, 3), rng.randint(1, 4), rng.randrange(99)
        opts = dict(boardsizes=[(n, n) for n in sizes], shuffle=rng.random() < .6, sequential_active_streams=streams,
                    sequential_read_quantum=quantum, drop_extra=False, apply_symmetry=False, sample_rate=1.0)

        def body():
            ds = R.build(kind, paths, R.ctx(seed=seed), **opts)
            src = ds._record_source
            src.configure_distributed(1, 0, rank_sharded=False)
            sub = kind == "packed_binary"
            epoch = rng.randrange(3)
            cur = src.start_epoch(epoch, 0)
            order = list(cur.file_order)

            def usable(f, e):
                n, k, raw = recs[f][e]
                if n == 11:
                    return range(0)
                return range(k if k is not None else src.subrecord_count(raw))
            got, _ = drain(src, cur)
            seen = [ident(src, x, sub)[:3] for x in got]
            want = reference(order, [len(r) for r in recs], usable, streams, quantum)
            require(seen == want, "every record of every binary file, once, in turn order", got=seen, want=want)
            for x, (f, e, s) in zip(got, seen):
                require(x.payload.raw_entry == recs[f][e][2], "a record carries exactly the bytes of its entry", record=(f, e, s))
            if src.capabilities.resumable:
                cut = rng.randrange(len(got) + 1)
                a = src.start_epoch(epoch, 0)
                head, _ = drain(src, a, cut)
                st = pickle.loads(pickle.dumps(src.save_cursor(a)))
                src.close_cursor(a)
                b = R.build(kind, paths, R.ctx(seed=seed), **opts)._record_source
                b.configure_distributed(1, 0, rank_sharded=False)
                tail, _ = drain(b, b.restore_cursor(st))
                require(same(head + tail, got), "a restored cursor continues with the very next record", cut=cut)
            require(src.capabilities.resumable == (not lz4), "only uncompressed files promise resume")
        H.case(kind, body, options=opts, sizes=[[x[0] for x in r] for r in recs], lz4=lz4)
        for f in os.listdir(folder):
            os.remove(os.path.join(folder, f))
