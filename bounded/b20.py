"""B20 - executable contract: binary game records."""
import io
import math
import os
import shutil

import numpy as np

from bounded import realdata as R
from bounded.harness import require

RULES = {0: ("freestyle", 0), 1: ("standard", 1), 4: ("renju", 2)}
RESULTS = ["LOSS", "DRAW", "WIN"]


class Short(io.RawIOBase):
    """A stream whose reads may return fewer bytes than asked for before the end (readinto and the first two bytes do not)."""

    def __init__(self, data, rng):
        self.b, self.rng = io.BytesIO(data), rng

    def readable(self):
        return True

    def read(self, n=-1):
        return self.b.read(n if n <= 8 else self.rng.randint(1, n))

    def readinto(self, buf):
        return self.b.readinto(buf)

    def tell(self):
        return self.b.tell()


def pos(m):
    return None if m.is_pass else (int(m.x), int(m.y))


def simple_case(rng, valid=True):
    size = rng.randint(1, 31)
    k = rng.choice([0, 1, 2, rng.randrange(40), rng.randrange(512)])
    hi = size if valid else 32
    cell = lambda: (rng.randrange(hi), rng.randrange(hi))
    c = dict(size=size, rule=rng.choice([0, 1, 4]), result=rng.randrange(3), best=cell(), moves=[cell() for _ in range(k)])
    if rng.random() < .1:
        c["moves"] = [(31, 31), (0, 31), (31, 0)][:rng.randint(1, 3)] if size == 31 and not valid else c["moves"]
    return c


def simple_bytes(c):
    return R.simple_record(c["size"], c["rule"], c["result"], c["best"], c["moves"])


def packed_case(rng, valid=True):
    size = rng.randint(1, 31)
    hi = size if valid else 32
    cell = lambda: (rng.randrange(hi), rng.randrange(hi))
    groups = []
    for _ in range(rng.choice([0, 1, 2, 3, rng.randrange(30)])):
        g = []
        for _ in range(rng.choice([1, 1, 2, 3, 8])):
            ev = rng.choice([0, 1, -1, rng.randrange(-900, 900), rng.randrange(28900, 29100), -rng.randrange(28900, 29100),
                             32767, -32768, rng.randrange(-32768, 32768)])
            g.append((None if rng.random() < .1 else cell(), None if rng.random() < .15 else ev))
        groups.append(g)
    return dict(size=size, rule=rng.choice([0, 1, 4]), result=rng.randrange(3), total=rng.randrange(1024),
                tag=rng.randrange(1 << 14), init=[cell() for _ in range(rng.choice([0, 1, 2, 3, rng.randrange(60), rng.randrange(1024)]))],
                groups=groups)


def packed_bytes(c, rng=None):
    entries = []
    for g in c["groups"]:
        for j, (m, ev) in enumerate(g):
            junk = rng.randrange(-32768, 32768) if rng else 0
            entries.append((int(j == 0), int(j == len(g) - 1), int(ev is None), int(m is None), m, junk if ev is None else ev))
    return R.packed_record(c["size"], c["rule"], c["result"], c["total"], c["init"], c["tag"], entries)


# ---------------------------------------------------------------- what a sample must be
def expect_simple(c):
    n, k = c["size"], len(c["moves"])
    board = np.zeros((2, n, n), np.int8)
    for i, (x, y) in enumerate(c["moves"]):
        board[(k - i) % 2, y, x] = 1            # the last move is the opponent's
    policy = np.zeros((n, n), np.float32)
    policy[c["best"][1], c["best"][0]] = 1
    return {"board_size": (n, n), "rule_index": RULES[c["rule"]][1], "board_input": board,
            "stm_input": [1. if k % 2 else -1.], "value_target": value_of(c["result"]), "policy_target": policy,
            "ply": k, "position_string": text(c["moves"]), "last_move": last(c["moves"])}


def value_of(result):
    return np.array([result == 2, result == 0, result == 1], np.float32)


def text(moves):
    return "".join("pass" if m is None else chr(97 + m[0]) + str(m[1] + 1) for m in moves)


def last(moves):
    return moves[-1] if moves and moves[-1] is not None else (-1, -1)


def winrate(ev, o):
    if ev >= o["eval_mate_threshold"]:
        return 1.
    if ev <= -o["eval_mate_threshold"]:
        return 0.
    return 1 / (1 + math.exp(-ev / o["scaling_factor"]))


def expect_packed(c, g, o):
    """The sample of group g of a game, computed from the game's rules alone."""
    n = c["size"]
    played = list(c["init"]) + [q[0][0] for q in c["groups"][:g]]
    k = len(played)
    board = np.zeros((2, n, n), np.int8)
    for i, m in enumerate(played):
        if m is not None:
            board[(k - i) % 2, m[1], m[0]] = 1
    group = c["groups"][g]
    ev = group[0][1]
    value = value_of(c["result"] if g % 2 == 0 else 2 - c["result"]).astype(float)
    lam = o["value_td_lambda"]
    if lam and ev is not None:
        if o["dynamic_value_lambda"]:
            lam *= 1 - g / max(len(c["groups"]) - 1, 1)
        w, l = winrate(ev, o), winrate(-ev, o)
        value = value * (1 - lam) + np.array([w, l, max(1 - w - l, 0)]) * lam
    evs = [e for _, e in group]
    T = o["multipv_temperature"]
    single = len(group) == 1 or T == 0 or None in evs or (not o["use_mate_multipv"] and ev >= o["eval_mate_threshold"])
    mass = ([1.] + [0.] * (len(group) - 1)) if single else softmax([winrate(e, o) for e in evs], T)
    policy = np.zeros(n * n + 1)
    for (m, _), p in list(zip(group, mass))[:1 if single else None]:
        policy[-1 if m is None else m[1] * n + m[0]] = p
    return {"board_size": (n, n), "rule_index": RULES[c["rule"]][1], "board_input": board,
            "stm_input": [1. if k % 2 else -1.], "value_target": value,
            "policy_target": policy if o["has_pass_move"] else policy[:-1].reshape(n, n),
            "ply": k, "raw_eval": np.nan if ev is None else ev, "position_string": text(played), "last_move": last(played)}


def softmax(v, T):
    m = max(v)
    e = [math.exp((x - m) / T) for x in v]
    return [x / sum(e) for x in e]


def compare(got, want, **inputs):
    require(got is not None, "a record yields no sample", **inputs)
    require(set(got) == set(want), "fields appear or disappear", got=sorted(got), want=sorted(want), **inputs)
    for k, v in want.items():
        g = got[k]
        if isinstance(v, str):
            require(g == v, f"{k} does not say what the record says", got=g, want=v, **inputs)
        else:
            g, v = np.asarray(g, float), np.asarray(v, float)
            g = g.reshape(v.shape) if g.size == v.size == 1 else g
            require(g.shape == v.shape and np.allclose(g, v, rtol=1e-5, atol=1e-6, equal_nan=True),
                    f"{k} does not say what the record says", got=g.tolist(), want=v.tolist(), **inputs)


def refuses(f, what, kinds=Exception, **inputs):
    try:
        r = f()
    except kinds:
        return
    require(False, what, got=repr(r)[:200], **inputs)


def run(H):
    from dataset import simple_binary as SB, packed_binary as PB
    rng = H.rng

    # ------------------------------------------------------------ codecs
    def codec(mod, make, encode, same, kind):
        cases = [make(rng, rng.random() < .7) for _ in range(rng.randint(1, 4))]
        raws = [encode(c) for c in cases]
        data = b"".join(raws) + b"\xff" * rng.choice([0, 0, 3])
        cut = rng.choice([rng.randrange(1, len(raws[0])) if len(raws[0]) > 1 else 1, rng.randint(1, min(9, len(raws[0]) - 1)), len(raws[0]) - 1])

        def body():
            for open_ in (io.BytesIO, lambda d: Short(d, rng)):
                f = open_(data)
                g = open_(data)
                end = 0
                for c, raw in zip(cases, raws):
                    end += len(raw)
                    same(mod.read_entry(f), c)
                    require(f.tell() == end, "reading a record does not end at the next one", at=f.tell(), end=end)
                    r = mod.read_raw_entry(g)
                    require(r == raw and g.tell() == end, "the raw record is not the bytes of the record", at=g.tell(), end=end)
                    same(mod.decode_raw_entry(r), c)
            raw = raws[0]
            for name in ("read_entry", "read_raw_entry"):
                refuses(lambda: getattr(mod, name)(io.BytesIO(raw[:cut])), f"{name} accepts a truncated record", cut=cut)
                refuses(lambda: getattr(mod, name)(io.BytesIO(b"")), f"{name} accepts an empty stream", EOFError)
            refuses(lambda: mod.decode_raw_entry(raw[:cut]), "decode_raw_entry accepts a truncated record", cut=cut)
            refuses(lambda: mod.decode_raw_entry(raw + b"\0" * rng.randint(1, 4)), "decode_raw_entry accepts trailing bytes")
            for field, value in (("rule", rng.choice([2, 3, 5, 6, 7])), ("result", 3 if kind == "simple" else rng.randint(3, 15))):
                wrong = encode({**cases[0], field: value})
                refuses(lambda: mod.read_entry(io.BytesIO(wrong)), f"an undefined {field} is accepted", value=value)
        H.case(f"{kind} codec", body, cases=cases, cut=cut)

    def same_simple(e, c):
        result, ply, size, rule, move, position = e
        require((result.name, ply, size, str(rule)) == (RESULTS[c["result"]], len(c["moves"]), c["size"], RULES[c["rule"]][0]),
                "a header field is not what the record says", got=[str(v) for v in (result, ply, size, rule)])
        require(pos(move) == c["best"], "the move to predict is not what the record says", got=pos(move), want=c["best"])
        require([pos(m) for m in position] == c["moves"], "the moves are not what the record says", got=[pos(m) for m in position])

    def same_packed(e, c):
        require((e.boardsize, str(e.rule), e.result.name, e.totalply, e.gametag)
                == (c["size"], RULES[c["rule"]][0], RESULTS[c["result"]], c["total"], c["tag"]),
                "a header field is not what the record says",
                got=[str(v) for v in (e.boardsize, e.rule, e.result, e.totalply, e.gametag)])
        require([pos(m) for m in e.init_position] == c["init"], "the initial moves are not what the record says")
        got = [[(pos(m), v) for m, v in zip(d.moves, d.evals)] for d in e.moves]
        require(got == c["groups"] and all(len(d.moves) == len(d.evals) for d in e.moves),
                "the move groups are not what the record says", got=got, want=c["groups"])

    H.bound("codecs", "random records over all field values, up to 511 moves / 1023 initial moves, 29 groups of up to 8 moves; one truncation each")
    for _ in range(H.scale(500, 8000)):
        codec(SB, simple_case, simple_bytes, same_simple, "simple")
        codec(PB, packed_case, packed_bytes, same_packed, "packed")

    def meta():
        c = packed_case(rng)
        raw = packed_bytes(c)
        s = simple_case(rng)
        sraw = simple_bytes(s)
        cut = rng.randrange(len(raw))
        entries = []
        for g in c["groups"]:
            for j, (m, ev) in enumerate(g):
                entries.append([int(j == 0), int(j == len(g) - 1), int(ev is None), int(m is None), m, ev or 0])
        heads = [i for i, e in enumerate(entries) if e[0]]
        victim = rng.choice(heads) if heads else None

        def body():
            require(tuple(PB.raw_entry_metadata(raw)) == (c["size"], RULES[c["rule"]][0], len(c["groups"])),
                    "the metadata of a raw game is not that of the game", got=PB.raw_entry_metadata(raw))
            require(tuple(SB.raw_entry_shape(sraw)) == (s["size"], RULES[s["rule"]][0]),
                    "the metadata of a raw record is not that of the record", got=SB.raw_entry_shape(sraw))
            refuses(lambda: PB.raw_entry_metadata(raw[:cut]), "metadata of a truncated game", cut=cut)
            refuses(lambda: PB.raw_entry_metadata(raw + b"\0"), "metadata of an overlong game")
            if victim is not None:
                broken = [list(e) for e in entries]
                broken[victim][0] = 0
                b = R.packed_record(c["size"], c["rule"], c["result"], c["total"], c["init"], c["tag"], broken)
                refuses(lambda: PB.decode_raw_entry(b), "a group without a first move is decoded", group=victim)
                refuses(lambda: PB.raw_entry_metadata(b), "a group without a first move is counted", group=victim)
        H.case("metadata", body, case=c, simple=s, cut=cut, victim=victim)
    for _ in range(H.scale(300, 4000)):
        meta()

    # ------------------------------------------------------------ samples
    def options():
        return dict(value_td_lambda=rng.choice([0., 0., .3, 1.]), dynamic_value_lambda=rng.random() < .5,
                    multipv_temperature=rng.choice([0., .05, .5]), use_mate_multipv=rng.random() < .5,
                    has_pass_move=rng.random() < .5)

    def distinct(c):
        """No two moves of a group on one cell: the mass of such a group is not defined by the format."""
        for g in c["groups"]:
            seen = set()
            for j, (m, ev) in enumerate(g):
                while m in seen:
                    m = (rng.randrange(c["size"]), rng.randrange(c["size"])) if c["size"] ** 2 > 12 else None
                    if c["size"] ** 2 <= 12:
                        break
                seen.add(m)
                g[j] = (m, ev)
            if len(seen) < len(g):
                del g[1:]
        return c

    def build(mod, c, o=None):
        model = {k: o[k] for k in ("scaling_factor", "eval_mate_threshold")} if o else {}
        kw = {k: v for k, v in (o or {}).items() if k not in model}
        if mod is PB:
            kw["winrate_model_args"] = model
        cls = mod.PackedBinaryDataset if mod is PB else mod.SimpleBinaryDataset
        return cls([], {RULES[c["rule"]][0]}, {(c["size"], c["size"])}, **kw)

    def samples():
        s, c = simple_case(rng), distinct(packed_case(rng))
        o = dict(options(), scaling_factor=rng.choice([200, 50]), eval_mate_threshold=rng.choice([29000, 500]))

        def one():
            d = build(SB, s)
            compare(d._prepare_data_from_entry(*SB.decode_raw_entry(simple_bytes(s))), expect_simple(s))
            d.rules = {r for r, _ in RULES.values()} - {RULES[s["rule"]][0]}
            require(d._prepare_data_from_entry(*SB.decode_raw_entry(simple_bytes(s))) is None, "a record of another rule yields a sample")
            d = build(SB, {**s, "size": s["size"] + 1})
            require(d._prepare_data_from_entry(*SB.decode_raw_entry(simple_bytes(s))) is None, "a record of another size yields a sample")

        def two():
            d = build(PB, c, o)
            e = PB.decode_raw_entry(packed_bytes(c, rng))
            order = list(range(len(c["groups"])))
            rng.shuffle(order)
            for g in order:
                if not o["has_pass_move"] and c["groups"][g][0][0] is None:
                    continue
                compare(d._process_subrecord(e, g), expect_packed(c, g, o), group=g)
            require(d._process_subrecord(e, len(order)) is None, "a group beyond the last yields a sample")
            d.rules = {r for r, _ in RULES.values()} - {RULES[c["rule"]][0]}
            require(not order or d._process_subrecord(e, 0) is None, "a game of another rule yields a sample")

        def off():
            n = c["size"]
            if n == 31:
                return
            x, y = rng.randrange(32), rng.randint(n, 31)
            bad = rng.choice([(x, y), (y, x)])
            b = {**s, "size": n, "best": (0, 0), "moves": []}
            where = rng.choice(["best", "moves"])
            b[where] = bad if where == "best" else [bad]
            refuses(lambda: build(SB, b)._prepare_data_from_entry(*SB.decode_raw_entry(simple_bytes(b))),
                    "a move outside the board yields a sample", record="simple", bad=bad, size=n, where=where)
            where = rng.choice(["init", "group", "earlier"])
            g = 1 if where == "earlier" else 0
            p = {**c, "init": [bad] if where == "init" else [],
                 "groups": [[(bad if where != "init" else (0, 0), 0)], [((0, 0), 0)]]}
            refuses(lambda: build(PB, p, o)._process_subrecord(PB.decode_raw_entry(packed_bytes(p)), g),
                    "a move outside the board yields a sample", record="packed", bad=bad, size=n, where=where)
        H.case("sample of a simple record", one, case=s)
        H.case("samples of a game", two, case=c, options=o)
        H.case("move outside the board", off, size=c["size"])
    H.bound("samples", "every group of random games with all option combinations, against an independent replay")
    for _ in range(H.scale(300, 4000)):
        samples()

    # ------------------------------------------------------------ files
    def files(i):
        folder = os.path.join(H.scratch, f"b20-{i}")
        os.makedirs(folder)
        kind = rng.choice(["simple_binary", "packed_binary"])
        n = rng.choice([5, 6, 7])
        names = [f"f{j}" + rng.choice([".lz4", {"simple_binary": ".bin", "packed_binary": ".binpack"}[kind]]) for j in range(rng.randint(1, 3))]
        content, sizes, rules = {}, {(n, n)}, set(rng.sample(sorted(r for r, _ in RULES.values()), rng.randint(1, 3)))
        for j, name in enumerate(names):
            out = []
            for _ in range(rng.randint(1, 8)):
                c = simple_case(rng) if kind == "simple_binary" else packed_case(rng)
                size = n if rng.random() < .8 else n + 1
                c["size"] = size
                for k in ("moves", "init"):
                    if k in c:
                        c[k] = [(x % size, y % size) for x, y in c[k]][:30]
                if kind == "simple_binary":
                    c["best"] = (c["best"][0] % size, c["best"][1] % size)
                else:
                    c["groups"] = [[(m and (m[0] % size, m[1] % size), ev) for m, ev in g] for g in c["groups"]]
                    distinct(c)
                out.append(c)
            content[name] = out
            enc = simple_bytes if kind == "simple_binary" else packed_bytes
            R.write_binary(os.path.join(folder, name), [enc(c) for c in out])
        broken = rng.choice([None, None, rng.choice(names)])
        o = dict(options(), scaling_factor=200, eval_mate_threshold=29000, has_pass_move=True)
        if broken:
            enc = simple_bytes if kind == "simple_binary" else packed_bytes
            data = b"".join(enc(c) for c in content[broken])
            keep = rng.randint(len(data) - len(enc(content[broken][-1])) + 1, len(data) - 1)
            R.write_binary(os.path.join(folder, broken), [data[:keep]])
        batch, seed = rng.choice([1, 2, 5]), rng.randrange(99)

        def body():
            want = {}
            for name in names:
                for j, c in enumerate(content[name]):
                    if RULES[c["rule"]][0] in rules and (c["size"], c["size"]) in sizes:
                        if kind == "simple_binary":
                            want[name, j] = expect_simple(c)
                        else:
                            for g in range(len(c["groups"])):
                                want[name, j, g] = expect_packed(c, g, o)
            kw = dict(boardsizes=sorted(sizes), rules=sorted(rules), shuffle=False)
            if kind == "packed_binary":
                kw.update({k: v for k, v in o.items() if k not in ("scaling_factor", "eval_mate_threshold")})
            got = {}
            try:
                ds = R.build(kind, [os.path.join(folder, x) for x in names], R.ctx(batch, 1, 0, seed, "validate"), **kw)
                files_of = {d.file_key: os.path.basename(d.path) for d in ds._record_source.descriptors}
                for b in ds._planned_decoder:
                    for j, key in enumerate(b.sample_keys):
                        if b.is_real[j]:
                            row = {k: v[j] for k, v in b.data.items() if k != "sparse_feature_dim"}
                            k = (files_of[key[1]], *key[3])
                            require(k not in got, "a record is delivered twice", key=k)
                            got[k] = {a: (v.numpy() if hasattr(v, "numpy") else v) for a, v in row.items()}
                    if b.token.batch.is_last:
                        break
            except RuntimeError as e:
                if "produced no global batch" in str(e) and not want:
                    return
                if broken:
                    for k in got:
                        compare(got[k], want[k], record=k)
                    require((broken, len(content[broken]) - 1) not in {k[:2] for k in got}, "a truncated record yields a sample")
                    return
                raise
            require(not broken, "a truncated file is read without an error", file=broken)
            require(set(got) == set(want), "records are lost or invented", lost=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)))
            for k in want:
                compare(got[k], want[k], record=k)
        H.case(f"files of {kind}", body, size=n, files=content, rules=rules, broken=broken, options=o, batch=batch)
        shutil.rmtree(folder)
    H.bound("files", "1-3 plain or compressed files of 1-8 records, some truncated in the last record")
    for i in range(H.scale(80, 800)):
        files(i)
