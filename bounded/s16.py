"""S16 - executable contracts: masks, selections, headers and version numbers, read back independently."""
import itertools
import os
import struct
import types
import zlib

from bounded.harness import require

NAMES = ["freestyle", "standard", "renju"]
RBIT = {"freestyle": 1, "standard": 2, "renju": 4}


def want_masks(rules, sizes):
    r = 0
    for n in rules:
        r |= RBIT[n]
    b = 0
    for s in sizes:
        b |= 2 ** (s - 1)
    return r, b


def run(H):
    import io
    import contextlib
    import lz4.frame
    import torch
    with contextlib.redirect_stdout(io.StringIO()):
        import export
        import model.serialization as ser
    rng = H.rng

    def quiet(fn, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k)

    def rnd_rules():
        r = rng.sample(NAMES, rng.randrange(1, 4))
        return r + [rng.choice(r)] if rng.random() < 0.2 else r

    def rnd_sizes():
        p = rng.random()
        if p < 0.2:
            return [rng.randrange(1, 33)]
        if p < 0.4:
            return list(range(1, 33))
        s = rng.sample(range(1, 33), rng.randrange(1, 33))
        return s + [rng.choice(s)] if rng.random() < 0.3 else s

    H.bound("masks", "all rule subsets and orders; all single board sizes, pairs, and random selections with repetitions")
    for n in range(0, 4):
        for p in itertools.permutations(NAMES, n):
            H.case("rule mask", lambda: require(ser.rules_to_mask(list(p)) == want_masks(p, [])[0],
                                                "a rule mask has other bits", got=ser.rules_to_mask(list(p))), rules=p)
    sels = [[s] for s in range(1, 33)] + [list(p) for p in itertools.permutations(range(1, 33), 2)] + [[]]
    sels += [rnd_sizes() for _ in range(H.scale(300))]
    for s in sels:
        H.case("size mask", lambda: require(ser.boardsizes_to_mask(list(s)) == want_masks([], s)[1],
                                            "a size mask has other bits", got=ser.boardsizes_to_mask(list(s))), sizes=s)

    def version(io_v, rules, sizes):
        def f():
            v = export.make_onnx_model_version(io_v, list(rules), list(sizes))
            r, b = want_masks(rules, sizes)
            require(0 <= v < 2 ** 63, "the version does not fit a signed 64-bit field", got=v)
            require(v >> 48 == io_v and (v >> 32) & 0xFFFF == r and v & 0xFFFFFFFF == b, "the version packs other values", got=hex(v))
            got = export.parse_onnx_model_version(v)
            require(got[0] == io_v and sorted(got[1]) == sorted(set(rules)) and sorted(got[2]) == sorted(set(sizes)),
                    "unpacking returns something else", got=got)
        H.case("version", f, io_version=io_v, rules=rules, sizes=sizes)
    for s in range(1, 33):
        version(1, NAMES, [s])
    for _ in range(H.scale(500)):
        version(rng.choice([1, 2, 255, 256, 0x7FFF, rng.randrange(1, 0x8000)]), rnd_rules(), rnd_sizes())
    for bad in (0, -1, 0x8000, 1 << 20):
        def f():
            try:
                export.make_onnx_model_version(bad, ["renju"], [15])
            except (AssertionError, ValueError):
                return
            require(False, "an illegal format version was accepted")
        H.case("version refused", f, io_version=bad)

    def selection(fn, args, want):
        def f():
            a = dict(args)
            try:
                got = quiet(fn, a)
            except (ValueError, AssertionError):
                require(want is None, "a valid selection was refused", args=args)
                return
            require(want is not None, "an invalid selection was accepted", args=args, got=got)
            require(list(got) == list(want), "another selection came back", args=args, got=got, want=want)
        H.case("selection", f, args=args)
    R, B = ser.get_rules_from_args, ser.get_boardsizes_from_args
    for n in NAMES:
        selection(R, {"rule": n}, [n])
    for key in ("rule_list", "rules"):
        for n in range(1, 4):
            for p in itertools.permutations(NAMES, n):
                selection(R, {key: list(p)}, p)
        for bad in ([], ["gomoku"], ["renju", "Renju"], ["freestyle", ""], ["renju", "standard", "x"], "renju"):
            selection(R, {key: bad}, None)
    for args in ({}, {"rule": "x"}, {"rule": ""}, {"rule": None}, {"boardsizes": [15]}):
        selection(R, args, None)
    for lo, hi in itertools.product((1, 2, 5, 15, 31, 32), repeat=2):
        selection(B, {"min_board_size": lo, "max_board_size": hi}, list(range(lo, hi + 1)))
    for lo, hi in ((0, 5), (5, 33), (-3, 2), (33, 33)):
        selection(B, {"min_board_size": lo, "max_board_size": hi}, None)
    for s in range(-1, 36):
        selection(B, {"board_size": s}, [s] if 1 <= s <= 32 else None)
    for s in (15.0, "15", None):
        selection(B, {"board_size": s}, None)
        selection(B, {"boardsizes": [15, s]}, None)
    for key in ("board_size_list", "boardsizes"):
        for _ in range(20):
            s = rnd_sizes()
            selection(B, {key: list(s)}, s)
            bad = list(s)
            bad.insert(rng.randrange(len(bad) + 1), rng.choice([0, 33, -1, 40, 64]))
            selection(B, {key: bad}, None)
    selection(B, {}, list(range(1, 33)))

    # every registered serializer stamps its selection
    for name in sorted(ser.SERIALIZERS.keys()):
        for _ in range(3):
            rules, sizes = rnd_rules(), rnd_sizes()

            def f():
                s = quiet(ser.build_serializer, name, rules=list(rules), boardsizes=list(sizes))
                got = s.rule_mask(None), s.boardsize_mask(None)
                require(got == want_masks(rules, sizes), "a serializer stamps another selection", got=got)
            H.case("serializer", f, type=name, rules=rules, sizes=sizes)

    # whole exports
    made = []

    class Fake(ser.BaseSerializer):
        crash = False

        def __init__(self, rules, boardsizes, arch=1, text="", blow=False, text_output=False, **kw):
            super().__init__(rules, boardsizes, text)
            self.arch, self.blow, self.text_output = arch, blow, text_output
            made.append(self)

        @property
        def is_binary(self):
            return not self.text_output

        def arch_hash(self, model):
            return self.arch

        def serialize(self, out, model, device):
            out.write("W" * 50 if self.text_output else b"W" * 50)
            if self.blow:
                raise RuntimeError("overflow")
            out.write("end" if self.text_output else b"end")
    if "bounded_fake" not in ser.SERIALIZERS.keys():
        ser.SERIALIZERS.register("bounded_fake")(Fake)
    tiny = torch.nn.Linear(1, 1)
    tiny.name = "tiny"
    texts = ["", "plain", "日本語の説明", "é" * 300, "emoji \U0001f600", "x" * 5000]

    def header(kind, rules, sizes, arch, text, how):
        def f():
            out = os.path.join(H.scratch, "w.bin")
            open(out, "wb").write(b"previous")
            args = {"arch": arch, "text": text}
            args.update({"rule": rules[0]} if len(rules) == 1 and how % 2 else {"rule_list" if how % 3 else "rules": list(rules)})
            if len(sizes) == 1 and how % 2:
                args["board_size"] = sizes[0]
            elif sizes == list(range(sizes[0], sizes[0] + len(sizes))) and how % 3:
                args.update(min_board_size=sizes[0], max_board_size=sizes[-1])
            else:
                args["board_size_list" if how % 3 else "boardsizes"] = list(sizes)
            quiet(export.export_serialization, out, kind, "bounded_fake", tiny, args, True)
            b = open(out, "rb").read()
            if kind == "lz4":
                b = lz4.frame.decompress(b)
            require(len(b) >= 20, "the header is cut short", size=len(b))
            magic, a, r, s, n = struct.unpack_from("<5I", b)
            require(magic == zlib.crc32(b"gomoku network weight version 1"), "another magic number", got=hex(magic))
            require(a == arch % 2 ** 32, "another architecture hash", got=hex(a))
            require((r, s) == want_masks(rules, sizes), "the header stamps another selection", got=(r, s))
            require(b[20 + n:] == b"W" * 50 + b"end", "the description length does not lead to the weights", length=n,
                    rest=b[20 + n:][:80])
            d = b[20:20 + n].decode("utf-8")
            require(d.startswith(f"model=tiny; {text}"), "another description", got=d)
            require(not [x for x in os.listdir(H.scratch) if x.startswith("w.bin.")], "a temporary file stays behind")
        H.case("header", f, kind=kind, rules=rules, sizes=sizes, arch=arch, text=text[:40], how=how)
    H.bound("exports", "whole exports (raw and lz4) with random selections, hashes and descriptions, ASCII and not")
    for i in range(H.scale(120)):
        header(rng.choice(["raw", "lz4"]), rnd_rules(), rnd_sizes(),
               rng.choice([0, 1, 0xFFFFFFFF, -1, 1 << 35, rng.randrange(1 << 32)]), texts[i % len(texts)], i)

    def failing(args, kind="raw"):
        def f():
            out = os.path.join(H.scratch, "p.bin")
            open(out, "wb").write(b"previous")
            try:
                quiet(export.export_serialization, out, kind, "bounded_fake", tiny, dict(args), True)
            except Exception:
                require(open(out, "rb").read() == b"previous", "a failing export damaged the previous file")
                return
            require(False, "an export that cannot work was accepted", args=args)
        H.case("failing export", f, args=args, kind=kind)
    ok = {"rule": "renju", "board_size": 15}
    failing({**ok, "blow": True})
    failing({**ok, "blow": True}, "lz4")
    failing({**ok, "blow": True, "text_output": True})
    failing({**ok, "rule": "gomoku"})
    failing({"board_size": 15})
    failing({**ok, "board_size": 33})
    failing({**ok, "board_size": 0})
    failing(ok, "zip")

    def plain(nohdr, text):
        def f():
            out = os.path.join(H.scratch, "n.bin")
            quiet(export.export_serialization, out, "raw", "bounded_fake", tiny,
                  {**ok, "text_output": text}, True, no_header=nohdr)
            require(open(out, "rb").read() == b"W" * 50 + b"end", "an output without header has other bytes")
        H.case("no header", f, no_header=nohdr, text=text)
    plain(True, False)
    plain(False, True)

    # a whole ONNX export
    def onnx_case(rules, sizes):
        def f():
            import onnx
            import warnings
            import logging

            class IO(torch.nn.Module):
                def forward(self, x):
                    return x * 2

                def get_model_inputs(self, d):
                    return (torch.zeros(1, 2),)

                def get_input_names(self): return ["x"]
                def get_output_names(self): return ["y"]
                def get_dynamic_axes(self): return None
                def get_io_version(self): return 1
            real = export._warp_model_io, export._get_sample_data
            export._warp_model_io, export._get_sample_data = (lambda m, a: IO()), (lambda **k: None)
            try:
                out = os.path.join(H.scratch, "m.onnx")
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    with contextlib.redirect_stderr(io.StringIO()):
                        quiet(export.export_onnx, out, tiny, {"rules": list(rules), "boardsizes": list(sizes)})
            finally:
                export._warp_model_io, export._get_sample_data = real
            v = onnx.load(out).model_version
            r, b = want_masks(rules, sizes)
            require(v == (1 << 48) | (r << 32) | b, "the ONNX file carries another version", got=hex(v))
        H.case("onnx file", f, rules=rules, sizes=sizes)
    onnx_case(["renju", "freestyle"], [15, 20, 1, 32])
    onnx_case(["standard"], [32])
