"""Writes small training files of every format and builds the real datasets over them."""
import ctypes
import os
import struct

import numpy as np


# ---------------------------------------------------------------- NPZ formats
def write_processed(path, file_id, rows, size, *, compressed=False, channels=2, stm=None, dtype=np.float32, rng=None,
                    skip=(), passes=True, blank=0):
    """vt[:,0] holds file_id*1000+row, so a delivered row tells where it came from."""
    h, w = size
    r = np.random.default_rng(rng.randrange(1 << 30) if rng else 0)
    d = {
        "bf": r.integers(0, 2, size=(rows, channels, h, w)).astype(np.int8),
        "gf": (np.where(r.integers(0, 2, size=(rows, 1)) > 0, 1, -1) if stm is None
               else np.full((rows, 1), stm)).astype(dtype),
        "vt": np.stack([file_id * 1000 + np.arange(rows), r.integers(0, 9, rows), r.integers(0, 9, rows)],
                       axis=1).astype(dtype),
        "pt": r.integers(0, 9, size=(rows, h * w + (1 if passes else 0))).astype(dtype),
    }
    if blank:        # rows without stones, without policy
        d["pt"][r.random(rows) < blank] = 0
        d["bf"][r.random(rows) < blank] = 0
    for k in skip:
        del d[k]
    (np.savez_compressed if compressed else np.savez)(path, **d)
    return d


def write_raw_katago(path, file_id, rows, n, rng, *, komi=True):
    """The unprocessed KataGo layout of n x n boards."""
    r = np.random.default_rng(rng.randrange(1 << 30))
    size = (n, n)
    planes = np.zeros((rows, 3, n * n), dtype=np.uint8)
    for i in range(rows):
        h, w = size
        g = np.zeros((3, n, n), dtype=np.uint8)
        g[0, :h, :w] = 1
        s = r.integers(0, 3, size=(h, w))
        g[1, :h, :w], g[2, :h, :w] = s == 1, s == 2
        planes[i] = g.reshape(3, n * n)
    d = {
        "binaryInputNCHWPacked": np.packbits(planes, axis=2, bitorder="big"),
        "globalInputNC": (np.where(r.integers(0, 2, (rows, 8)) > 0, 1., -1.) if komi
                          else np.where(r.integers(0, 2, (rows, 1)) > 0, 1., -1.)).astype(np.float32),
        "globalTargetsNC": np.concatenate([(file_id * 1000 + np.arange(rows))[:, None],
                                           r.integers(0, 9, size=(rows, 15))], axis=1).astype(np.float32),
        "policyTargetsNCMove": r.integers(0, 9, size=(rows, 2, n * n + 1)).astype(np.float32),
    }
    np.savez(path, **d)
    return d


def write_sparse(path, file_id, rows, n, rng):
    r = np.random.default_rng(rng.randrange(1 << 30))
    planes = r.integers(0, 2, size=(rows, 3, n * n)).astype(np.uint8)
    d = {
        "binaryInputNCHWPacked": np.packbits(planes, axis=2, bitorder="big"),
        "globalInputNC": np.where(r.integers(0, 2, (rows, 1)) > 0, 1., -1.).astype(np.float32),
        "globalTargetsNC": np.stack([file_id * 1000 + np.arange(rows), r.integers(0, 9, rows),
                                     r.integers(0, 9, rows)], axis=1).astype(np.float32),
        "policyTargetsNCHW": r.integers(0, 9, size=(rows, 1, n * n)).astype(np.float32),
        "sparseInputNCHWU8": r.integers(0, 200, size=(rows, 2, n * n)).astype(np.uint8),
        "sparseInputNCHWU16": r.integers(0, 2000, size=(rows, 1, n * n)).astype(np.uint16),
        "sparseInputDim": np.array([200, 200, 2000], dtype=np.uint32),
    }
    np.savez(path, **d)
    return d


# ---------------------------------------------------------------- binary formats
def simple_record(size, rule, result, best, moves, ply=None):
    """Independent encoder: two little-endian 16-bit words, then one word per earlier move."""
    ply = len(moves) if ply is None else ply
    w0 = (result & 3) | (ply & 511) << 2 | (size & 31) << 11
    w1 = (rule & 7) | (best[0] << 5 | best[1]) << 3
    return struct.pack(f"<HH{len(moves)}H", w0, w1, *[x << 5 | y for x, y in moves])


def packed_record(size, rule, result, total, init, tag, entries, *, count=None):
    """entries: (first, last, no_eval, is_pass, move, eval)."""
    n = len(entries) if count is None else count
    w0 = (size & 31) | (rule & 7) << 5 | (result & 15) << 8 | (total & 1023) << 12 | (len(init) & 1023) << 22
    w1 = (tag & 0x3fff) | (n & 0x3ffff) << 14
    out = struct.pack(f"<II{len(init)}H", w0, w1, *[x << 5 | y for x, y in init])
    for first, last, no_eval, is_pass, mv, ev in entries:
        m = 0 if mv is None else mv[0] << 5 | mv[1]
        out += struct.pack("<Hh", first | last << 1 | no_eval << 2 | is_pass << 3 | m << 6, ev)
    return out


def random_simple(rng, size, rule=0, ident=None):
    k = rng.randrange(0, 6)
    cells = rng.sample([(x, y) for x in range(size) for y in range(size)], k + 1)
    if ident is not None:        # make the record recognisable
        best = (ident % size, ident // size % size)
        cells = [c for c in cells if c != best][:k]
        return simple_record(size, rule, rng.randrange(3), best, cells)
    return simple_record(size, rule, rng.randrange(3), cells[0], cells[1:])


def random_packed(rng, size, rule=0, groups=None, tag=0):
    g = rng.randrange(0, 4) if groups is None else groups
    k = rng.randrange(0, 4)
    cells = rng.sample([(x, y) for x in range(size) for y in range(size)], k + 3 * g)
    init, rest = cells[:k], cells[k:]
    entries = []
    for i in range(g):
        pv = rng.randrange(1, 4)
        for j in range(pv):
            entries.append((int(j == 0), int(j == pv - 1), rng.randrange(2), 0, rest[3 * i + j], rng.randrange(-999, 999)))
    return packed_record(size, rule, rng.randrange(3), k + g, init, tag, entries)


def write_binary(path, records):
    data = b"".join(records)
    if path.endswith(".lz4"):
        import lz4.frame
        data = lz4.frame.compress(data)
    with open(path, "wb") as f:
        f.write(data)


# ---------------------------------------------------------------- datasets
def ctx(batch=2, world=1, rank=0, seed=0, mode="train"):
    from dataset.core import DatasetRuntimeContext
    return DatasetRuntimeContext(batch, batch // world, world, rank, seed, mode)


def build(kind, paths, context, **kw):
    from dataset import build_dataset
    kw.setdefault("rules", ["freestyle", "standard", "renju"])
    ds = build_dataset(kind, paths, runtime_context=context, **kw)
    if hasattr(ds, "_build_partitioned_stream"):
        ds._build_partitioned_stream()
    return ds


def show(value):
    """A comparable copy of a delivered field."""
    import torch
    if isinstance(value, torch.Tensor):
        value = value.detach().cpu().numpy()
    if isinstance(value, np.ndarray):
        return (str(value.dtype), value.shape, value.tobytes() if value.dtype.kind != "O"
                else tuple(show(v) for v in value.flat))
    if isinstance(value, (list, tuple)):
        return tuple(show(v) for v in value)
    if isinstance(value, dict):
        return {k: show(v) for k, v in value.items()}
    return repr(value)


def envelope(b):
    """Everything a trainer sees of a delivered batch."""
    t = b.token
    return {"data": {k: show(v) for k, v in sorted(b.data.items())}, "keys": tuple(b.sample_keys),
            "real": tuple(bool(x) for x in b.is_real), "epoch": t.epoch, "index": t.batch_index,
            "last": t.batch.is_last if hasattr(t, "batch") else t.is_last}


def differs(a, b):
    """Name of the first differing part of two envelopes."""
    for k in ("epoch", "index", "real", "keys", "last"):
        if a[k] != b[k]:
            return f"{k}: {a[k]} / {b[k]}"
    for k in sorted(set(a["data"]) | set(b["data"])):
        if a["data"].get(k) != b["data"].get(k):
            return f"data[{k}]"
    return None


def fleet(H, rng, folder, kinds=None):
    """A random dataset of a random kind. Returns (name, make(context) -> dataset, resumable, options)."""
    kind = rng.choice(kinds or ["iterative_katago_numpy", "iterative_processed_katago_numpy",
                                "batched_processed_katago_numpy", "iterative_sparse_numpy", "simple_binary",
                                "packed_binary", "iterative_multi"])
    os.makedirs(folder, exist_ok=True)
    kw = dict(shuffle=rng.random() < .7, apply_symmetry=rng.choice([False, True]),
              shuffle_window_size=rng.choice([1, 2, 5, 40]), sample_rate=rng.choice([1.0, 1.0, .7]))
    shapes = rng.choice([[7], [7, 9], [5, 7, 9]])
    files, resumable = rng.randint(1, 4), True

    def npz(writer, sizes):
        out = []
        for f in range(files):
            p = os.path.join(folder, f"f{f}.npz")
            writer(p, f, rng.randint(1, 9), rng.choice(sizes))
            out.append(p)
        return out
    boards = [(s, s) for s in shapes]
    if kind == "iterative_katago_numpy":
        paths = npz(lambda p, f, n, s: write_raw_katago(p, f, n, s, rng), shapes)
        kw["has_pass_move"] = rng.random() < .5
    elif kind in ("iterative_processed_katago_numpy", "batched_processed_katago_numpy"):
        comp = rng.random() < .5
        paths = npz(lambda p, f, n, s: write_processed(p, f, n, (s, s), compressed=comp, rng=rng), shapes)
        if kind.startswith("batched"):
            kw["prefetch_threads"], kw["prefetch_batches"] = rng.choice([0, 1, 2, 3]), rng.choice([1, 2, 3, 8])
            kw["pin_memory"] = False
    elif kind == "iterative_sparse_numpy":
        paths = npz(lambda p, f, n, s: write_sparse(p, f, n, s, rng), shapes)
    elif kind in ("simple_binary", "packed_binary"):
        paths = []
        lz4 = rng.random() < .2
        resumable = not lz4
        for f in range(files):
            p = os.path.join(folder, f"f{f}" + (".lz4" if lz4 else ".bin" if kind == "simple_binary" else ".binpack"))
            make = random_simple if kind == "simple_binary" else random_packed
            write_binary(p, [make(rng, rng.choice(shapes), rng.choice([0, 1, 4])) for _ in range(rng.randint(1, 9))])
            paths.append(p)
        kw["sequential_active_streams"], kw["sequential_read_quantum"] = rng.choice([1, 2, 3]), rng.choice([1, 2, 5])
        kw["drop_extra"] = True
    else:
        children = {}
        for c in range(rng.randint(1, 3)):
            sub = os.path.join(folder, f"c{c}")
            os.makedirs(sub, exist_ok=True)
            ps = []
            for f in range(rng.randint(1, 2)):
                ps.append(os.path.join(sub, f"f{f}.npz"))
                s = rng.choice(shapes)
                write_processed(ps[-1], 10 * c + f, rng.randint(2, 9), (s, s), rng=rng)
            children[f"c{c}"] = {"dataset_type": "iterative_processed_katago_numpy", "data_paths": ps,
                                 "blend_ratio": float(rng.choice([1, 1, 2, 3]))}
        kw["dataset_dict"], kw["sync_length"] = children, rng.random() < .5
        paths = []
    kw["boardsizes"] = boards

    def make(context, **over):
        import copy
        return build(kind, paths, context, **{**copy.deepcopy(kw), **over})
    return kind, make, resumable, kw
