"""D06, executable contracts on the random-access NPZ sources over real files (bounded)."""
import copy
import os
import shutil
from collections import Counter

from . import realdata as R
from .harness import require


def run(H):
    import numpy as np
    from dataset.packed import PackedEnvelopeBatch
    rng = H.rng
    H.bound("files", "1-5 files of 1-12 rows, 1-3 board sizes, compressed and stored, filters, world sizes 1-4, "
                     "every chunking by random limits, batches of up to 12 rows from any mixture of files")

    def syms(x, square):
        for k in range(4):
            if k % 2 and not square:
                continue
            y = np.rot90(x, k, axes=(-2, -1))
            yield y
            yield y[..., ::-1]

    def truth_processed(d, rows, size, o):
        out = []
        for i in rows:
            gf = d["gf"][i].astype(np.float32) if "gf" in d else np.zeros(1, np.float32)
            pt = d["pt"][i].astype(np.float32) if "pt" in d else np.zeros(size[0] * size[1] + 1, np.float32)
            out.append(dict(board_input=d["bf"][i], stm_input=gf, value_target=d["vt"][i].astype(np.float32),
                            policy=pt[:-1].reshape(size), tail=pt[-1:] if o["has_pass_move"] else None))
        return out

    def unpack(packed, n):
        return np.unpackbits(packed, axis=1, bitorder="big")[:, :n * n].reshape(-1, n, n)

    def truth_raw(d, rows, size, o):
        n, out = size[0], []
        for i in rows:
            g = d["globalInputNC"][i]
            stm = g[:1] if len(g) == 1 else np.array([1. if g[5] > 0 else -1.], np.float32)
            pol = d["policyTargetsNCMove"][i, 0, :n * n + (1 if o["has_pass_move"] else 0)]
            pol = pol / (pol.sum() + 1e-9)
            out.append(dict(board_input=unpack(d["binaryInputNCHWPacked"][i], n)[1:3], stm_input=stm,
                            value_target=d["globalTargetsNC"][i, :3], policy=pol[:n * n].reshape(n, n),
                            tail=pol[n * n:] if o["has_pass_move"] else None))
        return out

    def truth_sparse(d, rows, size, o):
        n, out = size[0], []
        for i in rows:
            pol = d["policyTargetsNCHW"][i, 0]
            pol = pol / (pol.sum() + 1e-7)
            sp = np.concatenate([d["sparseInputNCHWU8"][i].astype(int), d["sparseInputNCHWU16"][i].astype(int)])
            out.append(dict(board_input=unpack(d["binaryInputNCHWPacked"][i], n)[1:3],
                            stm_input=d["globalInputNC"][i], value_target=d["globalTargetsNC"][i],
                            policy=pol.reshape(n, n), tail=None, sparse=sp.reshape(-1, n, n)))
        return out

    def fixed_side(t):
        t = dict(t)
        if t["stm_input"][0] > 0:
            t["board_input"] = t["board_input"][::-1]
            v = t["value_target"]
            t["value_target"] = np.concatenate([v[[1, 0]], v[2:]])
        return t

    def same(a, b):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-7)

    def check_row(batch, j, t, size, o):
        """Row j of a delivered batch holds the fields of t, moved by one common symmetry at most."""
        if o["fixed_side_input"]:
            t = fixed_side(t)
        get = lambda k: np.asarray(batch[k][j])
        require(tuple(int(x) for x in get("board_size")) == tuple(size), "board size of another row", got=get("board_size"))
        require(same(get("value_target"), np.asarray(t["value_target"])), "value target of another row",
                got=get("value_target"), want=t["value_target"])
        require(same(get("stm_input"), np.asarray(t["stm_input"])), "side to move of another row")
        pol = get("policy_target")
        if pol.ndim == 1:
            require(t["tail"] is not None and same(pol[-1:], t["tail"]), "pass policy of another row")
            pol = pol[:-1].reshape(size)
        parts = [np.asarray(t["board_input"]), np.asarray(t["policy"])[None]]
        mine = [get("board_input"), pol[None]]
        if "sparse" in t:
            parts.append(t["sparse"])
            mine.append(get("sparse_feature_input"))
        options = zip(*[syms(p, size[0] == size[1]) for p in parts]) if o["apply_symmetry"] else [parts]
        require(any(all(same(x, y) for x, y in zip(mine, q)) for q in options), "board fields of another row",
                board=mine[0], want=parts[0])

    def attempt(n):
        kind = rng.choice(["iterative_katago_numpy", "iterative_processed_katago_numpy",
                           "batched_processed_katago_numpy", "batched_processed_katago_numpy",
                           "iterative_sparse_numpy"])
        raw, sparse = kind == "iterative_katago_numpy", kind == "iterative_sparse_numpy"
        o = dict(fixed_side_input=(not sparse) and rng.random() < .3, apply_symmetry=rng.choice([False, False, True]),
                 has_pass_move=(not sparse) and rng.random() < .4)
        kw = dict(shuffle=rng.random() < .6, sample_rate=rng.choice([1.0, 1.0, 1.0, .6]),
                  fixed_side_input=o["fixed_side_input"], apply_symmetry=o["apply_symmetry"])
        if not sparse:
            kw["has_pass_move"] = o["has_pass_move"]
        stm = rng.choice([None, None, None, 1, -1]) if not sparse else None
        if stm is not None:
            kw["filter_stm"] = stm
        sizes = [(s, s) for s in rng.choice([[5], [7], [5, 7], [5, 6, 7]])]
        if "processed" in kind and rng.random() < .3:
            sizes += [(5, 7)]
        admitted = sizes if rng.random() < .8 or len(sizes) == 1 else sizes[:-1]
        folder = os.path.join(H.scratch, f"d06-{n}")
        os.makedirs(folder)
        files, same_size = [], rng.choice(sizes)
        skip = [k for k in (() if stm is not None else ("gf",)) + ("pt",) if rng.random() < .1]
        for f in range(rng.randint(1, 5)):
            size = same_size if rng.random() < .5 else rng.choice(sizes)
            rows = rng.choice([1, 1, 2, 3, 5, 12])
            p = os.path.join(folder, f"f{f}.npz")
            if raw:
                d = R.write_raw_katago(p, f, rows, size[0], rng, komi=rng.random() < .5)
                g = d["globalInputNC"]
                side = np.where(g[:, 5] > 0, 1, -1) if g.shape[1] > 1 else g[:, 0]
                truth = truth_raw
            elif sparse:
                d, truth = R.write_sparse(p, f, rows, size[0], rng), truth_sparse
                side = d["globalInputNC"][:, 0]
            else:
                d = R.write_processed(p, f, rows, size, compressed=rng.random() < .5, rng=rng, skip=skip)
                truth = truth_processed
                side = d["gf"][:, 0] if "gf" in d else np.zeros(rows)
            keep = [i for i in range(rows) if size in admitted and (stm is None or side[i] == stm)]
            files.append((p, size, dict(enumerate(truth(d, range(rows), size, o))), keep))
        if not any(k for *_, k in files):
            return
        if raw and not all(s in admitted for _, s, _, _ in files):
            return                                  # the raw loader refuses a file without one admitted row
        if raw and not all(k for *_, k in files):
            return
        kw["boardsizes"] = admitted
        paths = [p for p, *_ in files]
        extra = dict(prefetch_threads=0, pin_memory=False) if kind.startswith("batched") else {}

        def make(world=1, rank=0, **over):
            ds = R.build(kind, list(paths), R.ctx(world, world, rank, 5, "train"), **{**copy.deepcopy(kw), **extra, **over})
            return ds._record_source

        want = Counter((i, r) for i, (_, _, _, keep) in enumerate(files) for r in keep)

        # what each delivered envelope stands for: its decoded row names file and row
        def identify(source, env):
            b = source.materialize_batch([env])
            v = np.asarray(b["value_target"][0])
            code = int(v[0])
            got = (code // 1000, code % 1000)
            if o["fixed_side_input"]:
                alt = int(v[1])
                got = [c for c in {got, (alt // 1000, alt % 1000)} if c[0] < len(files) and c[1] in files[c[0]][2]
                       and same(np.asarray(fixed_side(files[c[0]][2][c[1]])["value_target"]), v)]
                require(got, "a delivered row is no row of the files", value=v)
                return got
            require(got[0] < len(files) and got[1] in files[got[0]][2], "a delivered row is no row of the files", value=v)
            return [got]

        def walk(source, cursor, stop=None):
            out = []
            while stop is None or len(out) < stop:
                limit = rng.choice([1, 1, 2, 3, 50])
                if rng.random() < .3:
                    e, cursor = source.next_envelope(cursor)
                    if e is None:
                        break
                    out.append(e)
                else:
                    es, cursor = source.next_envelopes(cursor, limit)
                    require(len(es) <= limit, "more envelopes than asked for")
                    if not es:
                        break
                    out += es
            return out, cursor

        def ids(es):
            return [(e.source_id, e.record_key, e.shape_code, e.payload) for e in es]

        def body():
            src = make()
            epoch, cycle = rng.randrange(4), rng.choice([0, 0, 1, 3])
            start = lambda s=src, r=0: s.start_cycle(epoch, cycle, r)
            es, end = walk(src, start())
            require(len({e.payload for e in es}) == len(es), "a record ID is enumerated twice")
            require(len({e.record_key for e in es}) == len(es), "two rows share a record key")
            unshuffled = [e.payload for e in es]
            found = {}
            for e in es:
                opts = identify(src, e)
                fits = [c for c in opts if c not in found.values() and want[c]]
                require(fits, "a row is delivered twice or is not admitted", row=opts, already=list(found.values()))
                # the digest in the key belongs to that file
                pick = fits[0]
                if len(fits) > 1:
                    pick = next((c for c in fits if files[c[0]][0] == src.descriptors[0].path), fits[0])
                found[e.payload] = pick
                d, row = src._resolve(e.payload)
                if len(fits) == 1:
                    require(os.path.abspath(d.path) == os.path.abspath(files[pick[0]][0]), "a record ID resolves to another file",
                            path=d.path, want=files[pick[0]][0])
                    require(d.file_ordinal == e.source_id and d.file_sha256 == e.record_key[1],
                            "envelope names another file")
            if kw["sample_rate"] == 1.0:
                require(Counter(found.values()) == want, "rows are skipped", missing=list(want - Counter(found.values())))
            by_file = {}
            for p in unshuffled:
                by_file.setdefault(found[p][0], []).append(found[p][1])
            require(all(v == sorted(v) for v in by_file.values()), "rows of a file are out of file order", order=by_file)
            # other chunkings enumerate the same
            one, cur = [], start()
            while True:
                e, cur = src.next_envelope(cur)
                if e is None:
                    break
                one.append(e)
            require(ids(one) == ids(es), "the chunk size changes the enumeration")
            # packed enumeration
            pk, cur = [], start()
            while True:
                block, cur = src.next_packed_records(cur, rng.choice([1, 2, 5, 64]))
                require(block.default_cycle == cycle, "packed block of another cycle")
                if not len(block):
                    break
                pk += [int(x) for x in block.record_ids]
            require(pk == unshuffled, "packed enumeration differs", packed=pk, envelopes=unshuffled)
            # save / restore
            for _ in range(2):
                k = rng.randrange(len(es) + 1)
                a, cur = walk(src, start(), k)
                fresh = make()
                back = fresh.restore_cursor(src.save_cursor(cur))
                require(back == cur, "a restored cursor differs", saved=cur, restored=back)
                b, _ = walk(fresh, back)
                require(ids(a) + ids(b) == ids(es), "a restored cursor does not continue with the next record", at=len(a))
            # another cycle enumerates the same rows under other keys
            es2, _ = walk(src, src.start_cycle(epoch, cycle + 1, 0))
            if kw["sample_rate"] == 1.0:
                require(sorted(e.payload for e in es2) == sorted(unshuffled), "the next cycle enumerates other rows")
            require(not {e.record_key for e in es2} & {e.record_key for e in es}, "two cycles share a record key")
            # ranks
            w = rng.randint(2, 4)
            shared = []
            for r in range(w):
                s = make(w, r)
                s.configure_distributed(w, r, rank_sharded=True)
                mine, _ = walk(s, s.start_cycle(epoch, cycle, r))
                shared += ids(mine)
                if mine:
                    a, cur = walk(s, s.start_cycle(epoch, cycle, r), rng.randrange(len(mine) + 1))
                    t = make(w, r)
                    t.configure_distributed(w, r, rank_sharded=True)
                    b, _ = walk(t, t.restore_cursor(s.save_cursor(cur)))
                    require(ids(a) + ids(b) == ids(mine), "a restored rank cursor does not continue with the next record")
            require(Counter(x[3] for x in shared) == Counter(unshuffled), "ranks do not share the rows exactly once",
                    ranks=sorted(x[3] for x in shared), one=sorted(unshuffled))
            require(sorted(shared) == sorted(ids(es)), "ranks describe a row differently")
            # out of range
            total = src.logical_row_count
            require(total == sum(want.values()), "the logical row count is wrong", total=total, want=sum(want.values()))
            for bad in (total, total + 7):
                try:
                    src._resolve(bad)
                except ValueError:
                    continue
                require(False, "a record ID past the end resolves", id=bad)
            # materialisation
            src = make()
            src.start_cycle(epoch, cycle, 0)
            codes = sorted({e.shape_code for e in es})
            if not codes:
                return
            identity = None
            from dataset.core import canonical_pipeline_state_bytes
            import hashlib
            identity = hashlib.sha256(canonical_pipeline_state_bytes(src.manifest_state())).hexdigest()

            def expect(batch, batch_es, where):
                require(len(np.asarray(batch["value_target"])) == len(batch_es), f"{where}: another number of rows")
                for j, e in enumerate(batch_es):
                    f, r = found[e.payload]
                    try:
                        check_row(batch, j, files[f][2][r], files[f][1], o)
                    except Exception as x:
                        if hasattr(x, "inputs"):
                            x.inputs.update(where=where, row=j, file=f, file_row=r,
                                            batch=[found[q.payload] for q in batch_es])
                        raise
            for _ in range(3):
                many, packs = [], []
                for _ in range(rng.randint(1, 3)):
                    code = rng.choice(codes)
                    pool = [e for e in es if e.shape_code == code]
                    many.append(tuple(rng.choice(pool) for _ in range(rng.randint(1, 12))))
                for b in many:
                    data = src.materialize_batch(b)
                    expect(data, b, "materialize_batch")
                    require(src.sample_keys_for_batch(b) == tuple(e.record_key for e in b), "sample keys differ")
                    if hasattr(src, "materialize_batch_with_keys"):
                        data2, keys = src.materialize_batch_with_keys(b)
                        require(tuple(keys) == tuple(e.record_key for e in b), "sample keys differ")
                        require(R.show(data2) == R.show(data), "materialize_batch_with_keys differs from materialize_batch")
                    alone = [src.materialize_batch([e]) for e in b]
                    for k in data:
                        if k == "sparse_feature_dim":
                            continue
                        for j in range(len(b)):
                            require(R.show(np.asarray(data[k][j])) == R.show(np.asarray(alone[j][k][0])),
                                    "a row depends on its batch", field=k, row=j)
                    if cycle == 0:
                        p = PackedEnvelopeBatch(np.array([e.payload for e in b], dtype=np.uint64),
                                                src.envelopes_from_record_ids, identity)
                        packs.append(p)
                        require(ids(p) == ids(b), "packed IDs stand for other envelopes")
                        dp = src.materialize_batch(p)
                        require(R.show(dp) == R.show(data), "a packed batch materialises differently")
                        require(tuple(src.sample_keys_for_batch(p)) == tuple(e.record_key for e in b), "packed sample keys differ")
                        if hasattr(src, "materialize_batch_with_keys"):
                            dk, keys = src.materialize_batch_with_keys(p)
                            expect(dk, b, "packed materialize_batch_with_keys")
                            require(R.show({k: np.asarray(v) for k, v in dk.items()})
                                    == R.show({k: np.asarray(v) for k, v in data.items()}), "packed decoding differs")
                            require(tuple(keys) == tuple(e.record_key for e in b), "packed sample keys differ")
                            i = rng.randrange(len(b))
                            require(keys[i] == b[i].record_key and keys[i - len(b)] == b[i].record_key
                                    and len(keys) == len(b), "packed sample key lookup differs")
                        foreign = PackedEnvelopeBatch(np.array([b[0].payload], dtype=np.uint64),
                                                      src.envelopes_from_record_ids, "x" * 64)
                        for f in (src.materialize_batch, src.sample_keys_for_batch):
                            try:
                                f(foreign)
                            except RuntimeError:
                                continue
                            require(False, "a batch of another source is accepted")
                        out = PackedEnvelopeBatch(np.array([total], dtype=np.uint64), src.envelopes_from_record_ids, identity)
                        try:
                            src.materialize_batch(out)
                            require(False, "a record ID past the end is materialised")
                        except (ValueError, RuntimeError):
                            pass
                        if hasattr(src, "materialize_batch_with_keys"):
                            try:
                                src.materialize_batch_with_keys(out)
                                require(False, "a record ID past the end is materialised")
                            except (ValueError, RuntimeError):
                                pass
                if hasattr(src, "materialize_batches"):
                    alike = [b for b in many if b[0].shape_code == many[0][0].shape_code]
                    for b, got in zip(alike, src.materialize_batches(alike)):
                        expect(got, b, "materialize_batches")
                    for group in (alike, many):
                        pairs = src.materialize_batches_with_keys(group)
                        require(len(pairs) == len(group), "another number of batches")
                        for b, (got, keys) in zip(group, pairs):
                            expect(got, b, "materialize_batches_with_keys")
                            require(tuple(keys) == tuple(e.record_key for e in b), "sample keys differ")
                    if packs:
                        code = many[0][0].shape_code
                        pa = [(b, p) for b, p in zip(many, packs) if b[0].shape_code == code]
                        for (b, _), (got, keys) in zip(pa, src.materialize_batches_with_keys([p for _, p in pa])):
                            expect(got, b, "packed materialize_batches_with_keys")
                            require(tuple(keys) == tuple(e.record_key for e in b), "packed sample keys differ")
        H.case(kind, body, options=kw, files=[(os.path.basename(p), s, len(t), k) for p, s, t, k in files])
        shutil.rmtree(folder)

    # -- a row filter leaving gaps and mixing shapes inside a file -----------------
    H.bound("indexed rows", "1-4 files of up to 14 rows, every row kept or dropped, 1-3 shapes inside a file")

    def indexed(n):
        from dataset.decoder import NpzRowRecordDecoder
        from dataset.npz_source import IndexedNpzSource
        folder = os.path.join(H.scratch, f"d06i-{n}")
        os.makedirs(folder)
        table = {}
        for f in range(rng.randint(1, 4)):
            p = os.path.join(folder, f"f{f}.npz")
            rows = rng.randint(1, 14)
            drop = rng.choice([0, .2, .5])
            table[p] = [(rng.random() >= drop, rng.choice([3, 4, 5][:rng.choice([1, 1, 3])])) for _ in range(rows)]
            if rng.random() < .3:
                table[p] = [(True, s) if i in (0, rows - 1) else (k, s) for i, (k, s) in enumerate(table[p])]
            with open(p, "wb") as fh:
                fh.write(os.urandom(8) + bytes(f"{f}", "ascii"))
        paths = list(table)
        if not any(k for t in table.values() for k, _ in t):
            shutil.rmtree(folder)
            return

        def prepare(data, i):
            path, t = data
            keep, s = t[i]
            if not keep:
                return None
            return {"board_size": np.array([s, s], dtype=np.int8), "board_input": np.zeros((2, s, s), dtype=np.int8),
                    "stm_input": np.array([1.0], dtype=np.float32),
                    "value_target": np.array([paths.index(path), i, 0], dtype=np.float32),
                    "policy_target": np.zeros((s, s), dtype=np.float32)}
        decoder = NpzRowRecordDecoder("toy", R.ctx(), lambda p: ((p, table[p]), len(table[p])), prepare)
        epoch, shuffle = rng.randrange(3), rng.random() < .5

        def body():
            catalogs = [decoder.inspect_compact(p, i) for i, p in enumerate(paths)]
            make = lambda: IndexedNpzSource(catalogs, decoder, seed=3, shuffle=shuffle, sample_rate=1.0)
            src = make()
            want = [(f, i, s) for f, p in enumerate(paths) for i, (k, s) in enumerate(table[p]) if k]
            cur, es = src.start_epoch(epoch, 0), []
            while True:
                got, cur = src.next_envelopes(cur, rng.choice([1, 2, 5]))
                if not got:
                    break
                es += got
            rows = []
            for e in es:
                b = src.materialize_batch([e])
                f, i = (int(x) for x in b["value_target"][0][:2])
                s = int(b["board_size"][0][0])
                require(src._code_shapes[e.shape_code] == (s, s), "an envelope announces another board size", row=(f, i))
                require(e.source_id == f and e.record_key == ("root", src.descriptors[[d.file_ordinal for d in src.descriptors].index(f)].file_sha256,
                                                              "npz-row", (i,)), "an envelope names another row", row=(f, i), key=e.record_key)
                rows.append((f, i, s))
            require(sorted(rows) == sorted(want), "rows are not enumerated exactly once", got=rows, want=want)
            require(sorted(e.payload for e in es) == list(range(len(want))), "record IDs are not the ordinals of the rows")
            es = {e.payload: e for e in es}
            again = src.envelopes_from_record_ids(sorted(es))
            require([es[k] for k in sorted(es)] == list(again), "a record ID stands for another envelope")
            code = rng.choice([e.shape_code for e in es.values()])
            pool = [e for e in es.values() if e.shape_code == code]
            pick = [rng.choice(pool) for _ in range(6)]
            b = src.materialize_batch(pick)
            require([tuple(int(x) for x in v[:2]) for v in b["value_target"]]
                    == [tuple(int(x) for x in src.materialize_batch([e])["value_target"][0][:2]) for e in pick],
                    "a batch delivers other rows")
        H.case("indexed rows", body, files=list(table.values()), epoch=epoch, shuffle=shuffle)
        shutil.rmtree(folder)

    for n in range(H.scale(60, 1500)):
        indexed(n)
    for n in range(H.scale(90, 1500)):
        attempt(n)
