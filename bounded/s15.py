"""S15 - executable contract: symmetries and the samples they are applied to."""
import copy
import os
import shutil

import numpy as np

from bounded import realdata as R
from bounded.harness import require

# as documented beside the names; w, h: last column and row of the board the move is on
MAPS = {"IDENTITY": lambda x, y, w, h: (x, y), "ROTATE_90": lambda x, y, w, h: (y, w - x),
        "ROTATE_180": lambda x, y, w, h: (w - x, h - y), "ROTATE_270": lambda x, y, w, h: (h - y, x),
        "FLIP_X": lambda x, y, w, h: (x, h - y), "FLIP_Y": lambda x, y, w, h: (w - x, y),
        "FLIP_XY": lambda x, y, w, h: (y, x), "FLIP_YX": lambda x, y, w, h: (h - y, w - x)}
KEEP = ["IDENTITY", "ROTATE_180", "FLIP_X", "FLIP_Y"]
KINDS = {"default": list(MAPS), "rotate": ["IDENTITY", "ROTATE_90", "ROTATE_180", "ROTATE_270"],
         "flip": ["IDENTITY", "FLIP_X", "FLIP_Y", "FLIP_XY", "FLIP_YX"],
         "flip_diag_rotate180": ["IDENTITY", "ROTATE_180", "FLIP_XY", "FLIP_YX"]}


def move_plane(name, a, h, w):
    """The h x w board in the corner of plane a, moved cell by cell; the rest of the plane stays."""
    a = np.asarray(a)
    out = a.copy()
    for y in range(h):
        for x in range(w):
            nx, ny = MAPS[name](x, y, w - 1, h - 1)
            out[..., ny, nx] = a[..., y, x]
    return out


def grow(a, size):
    out = np.zeros(a.shape[:-2] + tuple(size), dtype=a.dtype)
    out[..., :a.shape[-2], :a.shape[-1]] = a
    return out


def moves_of(text):
    out, i = [], 0
    while i < len(text):
        if text.startswith("pass", i):
            out.append(None)
            i += 4
        else:
            j = i + 1
            while j < len(text) and text[j].isdigit():
                j += 1
            out.append((ord(text[i]) - ord("a"), int(text[i + 1:j]) - 1))
            i = j
    return out


def expect(plain, name, fixed):
    """What a row without augmentation (dict of arrays) becomes."""
    h, w = (int(v) for v in plain["board_size"])
    out = {k: v for k, v in plain.items()}
    size = fixed or (h, w)

    def plane(a):
        return grow(move_plane(name, a[..., :h, :w], h, w), size)
    for k in ("board_input", "sparse_feature_input"):
        if k in plain:
            out[k] = plane(np.asarray(plain[k]))
    p = np.asarray(plain["policy_target"])
    out["policy_target"] = (np.concatenate([plane(p[:-1].reshape(h, w)).reshape(-1), p[-1:]]) if p.ndim == 1 else plane(p))
    if "position_string" in plain:
        ms = [m and MAPS[name](*m, w - 1, h - 1) for m in moves_of(plain["position_string"])]
        out["position_string"] = "".join("pass" if m is None else f"{chr(m[0] + ord('a'))}{m[1] + 1}" for m in ms)
        out["last_move"] = np.array(ms[-1] if ms and ms[-1] is not None else (-1, -1))
    return out


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def check(got, plain, names, fixed, **inputs):
    """got must be plain under exactly one of the named symmetries, every field alike."""
    bad = []
    for n in names:
        want = expect(plain, n, fixed)
        diff = [k for k in want if k not in got or not same(got[k], want[k])]
        if not diff:
            require(set(got) == set(want), "augmentation adds or drops a field", got=sorted(got), want=sorted(want), **inputs)
            return n
        bad.append((n, diff))
    best = min(bad, key=lambda t: len(t[1]))
    require(False, "the fields of a sample are not moved by one symmetry of the board: " + ",".join(sorted(best[1])),
            closest=best, **inputs)


def run(H):
    from utils.data_utils import Symmetry, Move, post_process_data, post_process_batch
    rng = H.rng

    # ------------------------------------------------------------ the group
    sizes = [(h, w) for h in range(1, H.scale(10, 33)) for w in range(1, H.scale(10, 33)) if h == w or rng.random() < H.scale(.5, .4)]
    H.bound("symmetries", f"every symmetry, pair and cell of {len(sizes)} board sizes up to {max(s[0] for s in sizes)}")

    def group(h, w):
        square = h == w
        for kind, names in KINDS.items():
            try:
                got = [s.name for s in Symmetry.available_symmetries((h, w), kind)]
            except ValueError:
                require(not square and kind != "default", "no symmetries are offered", kind=kind)
                continue
            want = [n for n in names if square or n in KEEP]
            require(got and len(set(got)) == len(got), "a symmetry is offered twice", kind=kind, got=got)
            require(set(got) <= set(want) and "IDENTITY" in got, "a symmetry outside the documented kind or one that changes the shape",
                    kind=kind, got=got)
            if kind == "default":
                require(set(got) == set(want), "not all symmetries of the board are offered", got=got)
        a = np.arange(h * w).reshape(h, w)
        deep = np.stack([a, a + h * w])[None]
        table = {}
        for s in Symmetry:
            if not square and s.name not in KEEP:
                try:
                    s.apply_to_move(Move(0, 0), (h, w))
                except ValueError:
                    continue
                require(False, "a shape-changing symmetry accepts a move of a rectangular board", symmetry=s.name)
            b, d = s.apply_to_array(a), s.apply_to_array(deep)
            require(b.shape == (h, w) and d.shape == deep.shape, "the shape changes", symmetry=s.name)
            require(not np.shares_memory(b, a), "the moved array shares its memory with the original", symmetry=s.name)
            require(np.array_equal(d[0, 0], b) and np.array_equal(d[0, 1], b + h * w), "planes move differently", symmetry=s.name)
            back = np.moveaxis(s.apply_to_array(np.moveaxis(deep, (-2, -1), (1, 0)), y_dim=1, x_dim=0), (1, 0), (-2, -1))
            require(np.array_equal(back, d), "other axes move differently", symmetry=s.name)
            cells = {}
            for y in range(h):
                for x in range(w):
                    m = s.apply_to_move(Move(x, y), (h, w))
                    cells[x, y] = (int(m.x), int(m.y))
                    require((m.x, m.y) == MAPS[s.name](x, y, w - 1, h - 1), "a cell moves elsewhere than documented",
                            symmetry=s.name, cell=(x, y), to=(m.x, m.y))
                    require(0 <= m.x < w and 0 <= m.y < h and b[m.y, m.x] == a[y, x], "the array moves the cell elsewhere",
                            symmetry=s.name, cell=(x, y), move=(m.x, m.y))
            require(len(set(cells.values())) == h * w, "two cells collide", symmetry=s.name)
            require(s.apply_to_move(Move.PASS, (h, w)).is_pass, "a pass moves", symmetry=s.name)
            for bad in ((w, 0), (0, h), (-1, 0), (0, -1)):
                try:
                    s.apply_to_move(Move(*bad), (h, w))
                except ValueError:
                    continue
                require(False, "a move outside the board is accepted", symmetry=s.name, move=bad)
            table[s.name] = cells
        for n, c in table.items():
            require(any(all(d[c[k]] == k for k in c) for d in table.values()), "no inverse", symmetry=n)
            for d in table.values():
                require(any(all(e[k] == d[c[k]] for k in c) for e in table.values()), "a composition leaves the group", symmetry=n)
    for h, w in sizes:
        H.case("symmetries of a board", lambda: group(h, w), height=h, width=w)

    # ------------------------------------------------------------ samples
    def sample(h, w, flat, sparse, position, size_dtype):
        d = {"board_size": np.array([h, w], dtype=size_dtype),
             "board_input": np.array([[[rng.randrange(2) for _ in range(w)] for _ in range(h)] for _ in range(2)], dtype=np.int8),
             "stm_input": np.array([rng.choice([-1., 1.])], dtype=np.float32),
             "value_target": np.array([rng.random() for _ in range(3)], dtype=np.float32),
             "policy_target": np.array([rng.random() for _ in range(h * w + flat)], dtype=np.float32)}
        if not flat:
            d["policy_target"] = d["policy_target"].reshape(h, w)
        if sparse:
            d["sparse_feature_input"] = np.array([rng.randrange(99) for _ in range(12 * h * w)], dtype=np.int32).reshape(12, h, w)
        if position:
            d["position"] = [rng.choice([Move.PASS] + [Move(rng.randrange(w), rng.randrange(h)) for _ in range(4)])
                             for _ in range(rng.randrange(6))]
        return d

    def settle(d):
        d = dict(d)
        if "position" in d:
            ps = d.pop("position")
            d["position_string"] = "".join(str(m) for m in ps)
            d["last_move"] = ps[-1].pos if ps else np.array([-1, -1])
        return d

    def swap(d):
        """What fixing the side does, independently of the board's orientation."""
        if d["stm_input"][0] > 0:
            d = dict(d)
            d["board_input"] = d["board_input"][::-1]
            d["value_target"] = d["value_target"][[1, 0, 2]]
            if "sparse_feature_input" in d:
                d["sparse_feature_input"] = d["sparse_feature_input"][[4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10]]
        return d

    def one(i):
        h = rng.randint(1, 9)
        w = h if rng.random() < .6 else rng.randint(1, 9)
        d = sample(h, w, rng.random() < .5, rng.random() < .4, rng.random() < .6, rng.choice([np.int8, np.uint8, np.int64]))
        before = copy.deepcopy(d)
        kind = rng.choice(["default", True] + (list(KINDS) if h == w else []))
        names = [s.name for s in Symmetry.available_symmetries((h, w), "default" if kind is True else kind)]
        index = rng.choice([None, rng.randrange(len(names))])
        fixed = rng.choice([None, (h, w), (h + rng.randrange(4), w + rng.randrange(4))])
        side = rng.random() < .5
        drop = rng.random() < .2

        def body():
            got = post_process_data(d, fixed_side_input=side, fixed_board_size=fixed, symmetry_type=kind,
                                    symmetry_index=index, drop_extra=drop)
            want = settle(before)
            if side:
                want = swap(want)
            if drop:
                want = {k: want[k] for k in ("board_size", "board_input", "stm_input", "value_target", "policy_target")}
            check(got, want, names if index is None else [names[index]], fixed)
            require(all(same(d[k], before[k]) if k != "position" else [m.value for m in d[k]] == [m.value for m in before[k]]
                        for k in before) and set(d) == set(before), "the stored sample changes")
        H.case("one sample", body, height=h, width=w, kind=kind, index=index, fixed=fixed, side=side, drop=drop,
               fields={k: np.asarray(v).tolist() for k, v in d.items()})

    def many(i):
        h = rng.randint(2, 7)
        w = h if rng.random() < .7 else rng.randint(2, 7)
        flat, sparse = rng.random() < .5, rng.random() < .4
        rows = [sample(h, w, flat, sparse, False, np.int8) for _ in range(rng.randint(1, 5))]
        batch = {k: np.stack([r[k] for r in rows]) for k in rows[0]}
        names = [s.name for s in Symmetry.available_symmetries((h, w))]
        indices = rng.choice([None, [rng.randrange(len(names)) for _ in rows]])
        side = rng.random() < .4

        def body():
            got = post_process_batch(copy.deepcopy(batch), fixed_side_input=side, symmetry_type=True,
                                     symmetry_indices=None if indices is None else np.array(indices))
            for j, r in enumerate(rows):
                check({k: v[j] for k, v in got.items()}, swap(r) if side else r,
                      names if indices is None else [names[indices[j]]], None, row=j)
            if len(rows) > 1:
                try:
                    post_process_batch(copy.deepcopy(batch), symmetry_type=True, symmetry_indices=[0])
                except ValueError:
                    return
                require(False, "too few symmetry indices are accepted")
        H.case("one batch", body, height=h, width=w, flat=flat, rows=len(rows), indices=indices, side=side)
    for i in range(H.scale(1500, 20000)):
        one(i)
    for i in range(H.scale(200, 2000)):
        many(i)

    # ------------------------------------------------------------ every reader
    H.bound("readers", "1-3 files of up to 40 records of every format, with and without augmentation and a fixed board size")

    def deliver(ds):
        rows = {}
        if hasattr(ds, "_planned_decoder"):
            for b in ds._planned_decoder:
                for j, key in enumerate(b.sample_keys):
                    if b.is_real[j]:
                        rows[key if key[0] != "sequential" else key[2:]] = {k: (v[j] if not isinstance(v, (int, float)) else v) for k, v in b.data.items()
                                     if k not in ("sparse_feature_dim",)}
                if b.token.batch.is_last:
                    break
        else:
            for j in range(len(ds)):
                rows[j] = dict(ds[j])
        return {k: {n: (v.numpy() if hasattr(v, "numpy") else v) for n, v in r.items()} for k, r in rows.items()}

    def reader(i):
        folder = os.path.join(H.scratch, f"s15-{i}")
        os.makedirs(folder)
        kind = rng.choice(["katago_numpy", "processed_katago_numpy", "iterative_katago_numpy",
                           "iterative_processed_katago_numpy", "batched_processed_katago_numpy",
                           "iterative_sparse_numpy", "simple_binary", "packed_binary", "simple_binary", "packed_binary"])
        n = rng.choice([5, 6, 7])
        size = (n, n)
        if "processed" in kind and rng.random() < .4:
            size = (n, n + rng.choice([-1, 1, 2]))
        paths = []
        for f in range(1 if kind.endswith("binary") else rng.randint(1, 3)):
            p = os.path.join(folder, f"f{f}" + {"simple_binary": ".bin", "packed_binary": ".binpack"}.get(kind, ".npz"))
            m = rng.randint(1, rng.choice([3, 9, 40]))
            if "processed" in kind:
                R.write_processed(p, f, m, size, compressed=rng.random() < .3, rng=rng, blank=rng.choice([0, .2, .7]))
            elif "sparse" in kind:
                R.write_sparse(p, f, m, n, rng)
            elif kind == "simple_binary":
                R.write_binary(p, [R.random_simple(rng, n, rng.choice([0, 1, 4])) for _ in range(m)])
            elif kind == "packed_binary":
                R.write_binary(p, [R.random_packed(rng, n, rng.choice([0, 1, 4]), groups=rng.randint(1, 3)) for _ in range(m)])
            else:
                R.write_raw_katago(p, f, m, n, rng)
            paths.append(p)
        sym = rng.choice([True, "default"] + (list(KINDS) if size[0] == size[1] else []))
        fixed = rng.choice([None, size, (size[0] + rng.randrange(4), size[1] + rng.randrange(4))])
        if fixed and fixed != size and kind in ("iterative_sparse_numpy", "simple_binary"):
            fixed = size       # collation refuses a padded policy plane; these readers have no flat policy
        kw = dict(boardsizes=[size], shuffle=False)
        if kind not in ("iterative_sparse_numpy", "simple_binary"):
            kw["has_pass_move"] = rng.random() < .5 or bool(fixed and fixed != size and not kind.startswith(("katago", "processed")))
        if kind not in ("iterative_sparse_numpy",):
            kw["fixed_side_input"] = rng.random() < .3
        if kind.endswith("binary"):
            kw["drop_extra"] = rng.random() < .2
        if kind.startswith("batched"):
            kw["pin_memory"] = False
        if kind in ("katago_numpy", "processed_katago_numpy"):
            kw.pop("shuffle")
        seed, batch = rng.randrange(99), rng.choice([1, 2, 3, 8, 32])

        def body():
            c = R.ctx(batch, 1, 0, seed, "train" if kind in ("katago_numpy", "processed_katago_numpy") else "validate")
            plain = deliver(R.build(kind, paths, c, **kw, apply_symmetry=False))
            got = deliver(R.build(kind, paths, c, **kw, apply_symmetry=sym, **({"fixed_board_size": fixed} if fixed else {})))
            require(list(plain) == list(got), "augmentation changes which rows are delivered",
                    plain=list(plain), augmented=list(got))
            names = [s.name for s in Symmetry.available_symmetries(size, "default" if sym is True else sym)]
            for k in plain:
                check(got[k], plain[k], names, fixed, row=repr(k))
        H.case(f"reader {kind}", body, size=size, symmetry=sym, fixed=fixed, options=kw, seed=seed, batch=batch)
        shutil.rmtree(folder)
    for i in range(H.scale(220, 1500)):
        reader(i)
