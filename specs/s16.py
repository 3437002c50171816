"""S16 - export headers, masks and version numbers."""
import types

import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import Sym, SymBool, SymInt, SymList, SymReal, T, TInt, INT, Measure, int_term
from pyvc.symbytes import SymBytes, SymStr, blob_len
from pyvc.bv import BV, const, of_small, WIDTH
from pyvc.load import World, LoopSpec

SER, EXP = "model.serialization", "export"
NAMES = ["freestyle", "standard", "renju"]
BITS = {"freestyle": 1, "standard": 2, "renju": 4}

TRUSTED = ["UTF-8 encoding is an uninterpreted function of the description; its byte length is independent of the character count",
           "open/lz4 hand over written bytes in order; os.replace publishes the whole temporary file or nothing",
           "torch.onnx and the registered serializers' bodies (what they write after the header)"]


class ZStr(Sym):
    """A str of arbitrary content."""
    __pyvc_type__ = str
    __hash__ = Sym.__hash__

    @staticmethod
    def __pyvc_T__():
        return STR

    def __eq__(self, o):
        if isinstance(o, str):
            return SymBool(self.t == z3.StringVal(o))
        return SymBool(self.t == o.t) if isinstance(o, ZStr) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else SymBool(z3.Not(r.t))


class TStr(T):
    sorts = (z3.StringSort(),)

    def wrap(self, terms):
        return ZStr(terms[0])

    def unwrap(self, v):
        if isinstance(v, str):
            return [z3.StringVal(v)]
        if isinstance(v, ZStr):
            return [v.t]
        raise Unsupported("not a string")


STR = TStr()


class Size(SymInt):
    """A board size of the loop: its mask bit is built in bit vectors."""

    def __rlshift__(self, o):
        if o != 1:
            raise Unsupported("only 1 << size")
        ctx().session.prove("the bit of a board size lies in the mask", z3.And(self.t >= 0, self.t < 32))
        return BV(const(1) << of_small(self.t, 32))

    def __sub__(self, o):
        return Size(int_term(SymInt(self.t) - o))

    def __add__(self, o):
        return Size(int_term(SymInt(self.t) + o))


class TSize(TInt):
    def wrap(self, terms):
        return Size(terms[0])


k0 = z3.Int("watched_bit")
HITS = Measure("hits", lambda t: z3.If(t == k0 + 1, z3.IntVal(1), z3.IntVal(0)))


def known(t):
    return z3.Or([t == z3.StringVal(n) for n in NAMES])


def mask_inv(L):
    m = L.boardsize_mask
    t = m.t if isinstance(m, BV) else const(m)
    yield "no bit above the 32 board sizes", z3.ULT(t, const(1 << 32))
    yield "the watched bit is set exactly if its size was seen", BV(t).bit(k0) == (int_term(L.done("hits")) > 0)


def parse_inv(L):
    v, l = L.boardsize_mask, L.boardsizes
    l = l if isinstance(l, SymList) else SymList.of(INT, l, (HITS,))
    yield "exactly the sizes of the set bits so far", l.mvals["hits"] == z3.If(
        z3.And(k0 < int_term(L.i), v.bit(k0)), 1, 0)
    yield "at most one entry per size", l.n <= int_term(L.i)


def all_known(L):
    j = z3.Int("j_known")
    yield "every rule so far is a known one", z3.ForAll([j], z3.Implies(
        z3.And(j >= 0, j < int_term(L.i)), known(L.src.terms_at(j)[0])))


def all_sized(L):
    j = z3.Int("j_sized")
    if not isinstance(L.src, SymList):
        raise Unsupported("board sizes are not a list")
    t = L.src.terms_at(j)[0]
    yield "every size so far is within 1 to 32", z3.ForAll([j], z3.Implies(
        z3.And(j >= 0, j < int_term(L.i)), z3.And(t >= 1, t <= 32)))


def fresh_sizes(c, et=None, hint="boardsizes"):
    l = SymList.fresh(et or TSize(), hint, (HITS,))
    j = z3.Int("j_hits")
    return l


def prove(S):
    misc = types.ModuleType("misc")

    class Registry(dict):
        def __init__(self, name):
            super().__init__()

        def register(self, key):
            return lambda v: self.setdefault(key, v)
    misc.Registry, misc.import_submodules = Registry, lambda *a, **k: None
    misc.set_performance_level = misc.deep_update_dict = None

    class Dummy(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return type(k, (), {})
    stubs = {"utils.misc_utils": misc, **{n: Dummy(n) for n in (
        "dataset", "dataset.core", "utils.training_utils", "utils.file_utils", "model")}}
    loops = {
        f"{SER}:boardsizes_to_mask#0": LoopSpec(inv=mask_inv, types={"boardsize_mask": lambda v: BV.fresh("mask")}),
        f"{SER}:get_rules_from_args#0": LoopSpec(inv=all_known, types={"rule": lambda v: None}),
        f"{SER}:get_boardsizes_from_args#0": LoopSpec(inv=all_sized, types={"boardsize": lambda v: None}),
        f"{EXP}:parse_onnx_model_version#0": LoopSpec(inv=parse_inv, types={
            "boardsizes": lambda v: SymList.fresh(INT, "sizes", (HITS,))}),
    }
    wn = World(stubs=stubs).module(SER)
    w = World(loops=loops, stubs=stubs)
    m = w.module(SER)
    e = w.module(EXP)
    e.print = m.print = lambda *a, **k: None
    e.hex = lambda v: "<hex>"

    # -- masks ---------------------------------------------------------------
    def h_rules_mask():
        c = ctx()
        sel = {n: c.decide(c.fresh(z3.BoolSort(), n)) for n in NAMES}
        rules = [n for n in NAMES if sel[n]]
        if c.decide(c.fresh(z3.BoolSort(), "reversed")):
            rules = rules[::-1] + rules[:1]
        got = m.rules_to_mask(rules)
        S.prove("rule mask: exactly the bits of the selected rules", int_term(got) == sum(BITS[n] for n in NAMES if sel[n]))
    S.run("rules_to_mask", h_rules_mask)

    def h_sizes_mask():
        c = ctx()
        c.add(z3.And(k0 >= 0, k0 < 32))
        sizes = fresh_sizes(c)
        c.inputs.update(watched_bit=k0)
        j = z3.Int("j_size")
        t = sizes.terms_at(j)[0]
        refused = False
        try:
            got = m.boardsizes_to_mask(sizes)
        except (AssertionError, ValueError):
            S.prove("size mask: refuses only when some size is outside 1 to 32", z3.Exists(
                [j], z3.And(j >= 0, j < sizes.n, z3.Or(t < 1, t > 32))))
            return
        got = got if isinstance(got, BV) else BV(const(got))
        S.prove("size mask: a bit is set exactly if its size is selected", got.bit(k0) == (sizes.mvals["hits"] > 0))
        S.prove("size mask: nothing above bit 31", z3.ULT(got.t, const(1 << 32)))
    S.run("boardsizes_to_mask", h_sizes_mask)

    # -- selections ------------------------------------------------------------
    def h_rules():
        c = ctx()
        args, want = {"other": 7}, None
        has = [c.decide(c.fresh(z3.BoolSort(), f"has_{k}")) for k in ("rule", "rule_list", "rules")]
        vals = [STR.fresh("rule"), SymList.fresh(STR, "rule_list"), SymList.fresh(STR, "rules")]
        for k, h, v in zip(("rule", "rule_list", "rules"), has, vals):
            if h:
                args[k] = v
        first = next((k for k in range(3) if has[k]), None)
        keys = set(args)
        if first is None:
            chosen = None
        else:
            chosen = SymList.of(STR, [vals[0]]) if first == 0 else vals[first].snapshot()
        # the one-rule list is cut like any other
        try:
            got = m.get_rules_from_args(args)
        except (ValueError, AssertionError):
            if chosen is None:
                S.prove("rules: no selection is refused", z3.BoolVal(True))
                return
            j = z3.Int("j_bad")
            S.prove("rules: refuses only an empty or unknown selection", z3.Or(chosen.n == 0, z3.Exists(
                [j], z3.And(j >= 0, j < chosen.n, z3.Not(known(chosen.terms_at(j)[0]))))))
            return
        S.prove("rules: no selection is never accepted", z3.BoolVal(chosen is not None))
        got = got if isinstance(got, SymList) else SymList.of(STR, got)
        j = z3.Int("j_post")
        S.prove("rules: the selection itself comes back", z3.And(got.n == chosen.n, z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < got.n), got.terms_at(j)[0] == chosen.terms_at(j)[0]))))
        S.prove("rules: not empty and all known", z3.And(got.n > 0, z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < got.n), known(got.terms_at(j)[0])))))
        S.prove("rules: only the used key is consumed", z3.BoolVal(
            set(args) == keys - {("rule", "rule_list", "rules")[first]}))
    S.run("get_rules_from_args", h_rules)

    def h_sizes(bad):
        def h():
            c = ctx()
            names = ("board_size", "min_board_size", "max_board_size", "board_size_list", "boardsizes")
            args = {"other": 7}
            one, lo, hi = INT.fresh("size"), INT.fresh("lo"), INT.fresh("hi")
            lists = [SymList.fresh(INT, "board_size_list"), SymList.fresh(INT, "boardsizes")]
            vals = dict(zip(names, [one, lo, hi] + lists))
            if bad:
                vals["board_size"] = SymReal(c.fresh(z3.RealSort(), "size"))
                args["board_size"] = vals["board_size"]
            else:
                for k in names:
                    if c.decide(c.fresh(z3.BoolSort(), f"has_{k}")):
                        args[k] = vals[k]
            keys = set(args)
            if "board_size" in args:
                used, at, n = {"board_size"}, (lambda j: one.t), z3.IntVal(1)
            elif "min_board_size" in args and "max_board_size" in args:
                used, at = {"min_board_size", "max_board_size"}, (lambda j: lo.t + j)
                n = z3.If(hi.t >= lo.t, hi.t - lo.t + 1, 0)
            elif "board_size_list" in args:
                used, at, n = {"board_size_list"}, (lambda j, l=lists[0].snapshot(): l.terms_at(j)[0]), lists[0].n
            elif "boardsizes" in args:
                used, at, n = {"boardsizes"}, (lambda j, l=lists[1].snapshot(): l.terms_at(j)[0]), lists[1].n
            else:
                used, at, n = set(), (lambda j: j + 1), z3.IntVal(32)
            j = z3.Int("j_post")
            try:
                got = (wn if bad else m).get_boardsizes_from_args(args)
            except (ValueError, AssertionError):
                S.prove("sizes: refuses only a selection with a size that is no integer from 1 to 32", z3.BoolVal(True) if bad
                        else z3.Exists([j], z3.And(j >= 0, j < n, z3.Or(at(j) < 1, at(j) > 32))))
                return
            S.prove("sizes: a size that is no integer is refused", z3.BoolVal(not bad))
            if not isinstance(got, SymList):
                got = SymList.of(INT, got)
            S.prove("sizes: exactly the selection comes back", z3.And(got.n == n, z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < n), got.terms_at(j)[0] == at(j)))))
            S.prove("sizes: all within 1 to 32", z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < n), z3.And(at(j) >= 1, at(j) <= 32))))
            S.prove("sizes: only the used keys are consumed", z3.BoolVal(set(args) == keys - used))
        return h
    S.run("get_boardsizes_from_args", h_sizes(False))
    S.run("get_boardsizes_from_args (not an integer)", h_sizes(True))

    def h_build():
        c = ctx()
        made = []

        class Ser:
            def __init__(self, **k):
                made.append(k)
        m.SERIALIZERS.clear()
        m.SERIALIZERS["known"] = Ser
        rules, sizes = object(), object()
        seen = []

        def contract(names, result):
            def f(args):
                seen.append(result)
                for n in names:
                    args.pop(n, None)
                return result
            return f
        RN, BN = ("rule", "rule_list", "rules"), ("board_size", "min_board_size", "max_board_size", "board_size_list", "boardsizes")
        real = m.get_rules_from_args, m.get_boardsizes_from_args
        m.get_rules_from_args, m.get_boardsizes_from_args = contract(RN, rules), contract(BN, sizes)
        try:
            args = {"s_weight": object()}
            for k in RN + BN:
                if c.decide(c.fresh(z3.BoolSort(), f"has_{k}")):
                    args[k] = object()
            mt = "known" if c.decide(c.fresh(z3.BoolSort(), "known")) else "unknown"
            try:
                s = m.build_serializer(mt, **args)
            except ValueError:
                S.prove("only an unregistered model type is refused", z3.BoolVal(mt == "unknown"))
                return
        finally:
            m.get_rules_from_args, m.get_boardsizes_from_args = real
        S.prove("an unregistered model type is refused", z3.BoolVal(mt == "known" and isinstance(s, Ser)))
        k, = made
        want_r = any(x in args for x in RN)
        want_b = any(x in args for x in ("board_size", "board_size_list", "boardsizes")) or \
            ("min_board_size" in args and "max_board_size" in args)
        S.prove("the serializer gets the selected rules, or the restrictive default", z3.BoolVal(
            k["rules"] is rules if want_r else k["rules"] == ["freestyle"]))
        S.prove("the serializer gets the selected sizes, or the restrictive default", z3.BoolVal(
            k["boardsizes"] is sizes if want_b else k["boardsizes"] == [15]))
        S.prove("other arguments are passed on", z3.BoolVal(k["s_weight"] is args["s_weight"]))
    S.run("build_serializer", h_build)

    def h_base():
        c = ctx()

        class Ser(m.BaseSerializer):
            def arch_hash(self, model):
                return 0

            def serialize(self, out, model, device):
                pass
        rules, sizes, rm, bm = object(), object(), object(), object()
        real = m.rules_to_mask, m.boardsizes_to_mask
        m.rules_to_mask = lambda r: rm if r is rules else None
        m.boardsizes_to_mask = lambda b: bm if b is sizes else None
        try:
            s = Ser(rules=rules, boardsizes=sizes)
            S.prove("a serializer's masks are those of its selection", z3.BoolVal(
                s.rule_mask(None) is rm and s.boardsize_mask(None) is bm))
        finally:
            m.rules_to_mask, m.boardsizes_to_mask = real
        S.prove("a binary serializer has a header by default", z3.BoolVal(s.needs_header is True and s.is_binary is True))
    S.run("BaseSerializer", h_base)

    # -- ONNX version ------------------------------------------------------------
    def h_version():
        c = ctx()
        c.add(z3.And(k0 >= 0, k0 < 32))
        io = BV.fresh("io_version", 40)
        rm, bm = BV.fresh("rule_mask", 3), BV.fresh("boardsize_mask", 32)
        rules, sizes = object(), object()
        e.rules_to_mask = lambda r: rm if r is rules else None
        e.boardsizes_to_mask = lambda b: bm if b is sizes else None
        try:
            v = e.make_onnx_model_version(io, rules, sizes)
        except (AssertionError, ValueError):
            S.prove("version: refuses only a format version outside [1, 32767]", z3.Or(
                io.t == 0, z3.UGT(io.t, const(0x7FFF))))
            return
        S.prove("version: fits a signed 64-bit field", z3.ULT(v.t, const(1 << 63)))
        io2, rules2, sizes2 = e.parse_onnx_model_version(v)
        S.prove("version: the format version comes back", io2.t == io.t)
        for n in NAMES:
            S.prove(f"version: rule {n} comes back exactly if it was packed", rm.bit({1: 0, 2: 1, 4: 2}[BITS[n]]) == z3.BoolVal(
                rules2.count(n) == 1))
        S.prove("version: no other rule comes back", z3.BoolVal(set(rules2) <= set(NAMES) and len(set(rules2)) == len(rules2)))
        S.prove("version: a board size comes back exactly once if it was packed, else not",
                sizes2.mvals["hits"] == z3.If(bm.bit(k0), 1, 0))
        S.prove("version: no other size comes back", sizes2.n <= 32)
    S.run("make_onnx_model_version / parse_onnx_model_version", h_version)

    # -- the header ------------------------------------------------------------------
    class Text(SymStr):
        def __pyvc_len__(self):
            n = z3.Function("char_count", self.t.sort(), z3.IntSort())(self.t)
            ctx().add(z3.And(n >= 0, n <= blob_len(self.t.sort())(self.t)))
            return SymInt(n)

        def __add__(self, o):
            if isinstance(o, Text):
                o = "text"
            f = z3.Function("append", self.t.sort(), self.t.sort())
            return Text(f(self.t))

        def encode(self, *a):
            if a and a[0].lower() not in ("utf-8", "utf8"):
                raise Unsupported("another encoding")
            return SymStr.encode(self)

        def __format__(self, spec):
            return "<text>"

    def h_header():
        c = ctx()
        arch, rm, bm = INT.fresh("arch_hash"), INT.fresh("rule_mask"), INT.fresh("boardsize_mask")
        c.add(z3.And(rm.t >= 0, rm.t < 8, bm.t >= 0, bm.t < 1 << 32))
        c.inputs.update(arch_hash=arch.t, rule_mask=rm.t, boardsize_mask=bm.t)
        from pyvc.symbytes import opaque_sort
        desc = Text(c.fresh(opaque_sort("Str"), "description"))
        needs, binary = c.decide(c.fresh(z3.BoolSort(), "needs_header")), c.decide(c.fresh(z3.BoolSort(), "binary"))
        nohdr = c.decide(c.fresh(z3.BoolSort(), "no_header"))
        kind = "raw" if c.decide(c.fresh(z3.BoolSort(), "raw")) else "lz4" if c.decide(c.fresh(z3.BoolSort(), "lz4")) else "zip"
        fails = c.decide(c.fresh(z3.BoolSort(), "serializer_fails"))
        log, files = [], {}
        the_model = types.SimpleNamespace(to=lambda d: None)

        class Boom(Exception):
            pass

        class File:
            def __init__(self, path, mode):
                self.path, self.mode, self.out, self.open = path, mode, [], True
                files[path] = self

            def write(self, b):
                if not self.open:
                    raise ValueError("closed")
                self.out.append(b)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.open = False

        class Ser:
            needs_header, is_binary = needs, binary

            def arch_hash(self, mo): return arch
            def rule_mask(self, mo): return rm
            def boardsize_mask(self, mo): return bm
            def description(self, mo): return desc

            def serialize(self, f, mo, device):
                f.write("payload" if not binary else b"payload")
                if fails:
                    raise Boom()
        rules, sizes, ser_args = object(), object(), {"s_weight": 128}
        seen = []

        def get_rules(a):
            a.pop("rule")
            seen.append("rules")
            return rules

        def get_sizes(a):
            a.pop("board_size")
            seen.append("sizes")
            return sizes

        def build(mt, **k):
            S.prove("header: the serializer is built for the selection", z3.BoolVal(
                mt == "mt" and k.get("rules") is rules and k.get("boardsizes") is sizes and k.get("s_weight") == 128))
            return Ser()
        e.get_rules_from_args, e.get_boardsizes_from_args, e.build_serializer = get_rules, get_sizes, build
        e.open = lambda p, mode: File(p, mode)
        e.lz4 = types.SimpleNamespace(frame=types.SimpleNamespace(
            open=lambda p, mode, **k: File(p, mode), COMPRESSIONLEVEL_MINHC=3))

        def replace(a, b):
            S.prove("header: the file is published only when complete and closed", z3.BoolVal(
                a in files and not files[a].open and not fails))
            log.append((a, b))
        e.os = types.SimpleNamespace(replace=replace, path=None)
        e._get_git_revision_short_hash = lambda *a: "abc"
        try:
            e.export_serialization("out.bin", kind, "mt", the_model, {"rule": 1, "board_size": 2, **ser_args}, True, no_header=nohdr)
        except (Boom, ValueError) as x:
            S.prove("header: only a failing serializer or an unknown output type fails", z3.BoolVal(
                fails if isinstance(x, Boom) else kind == "zip"))
            S.prove("header: a failed export leaves the previous file", z3.BoolVal(not log and "out.bin" not in files))
            return
        S.prove("header: an unknown output type is refused", z3.BoolVal(kind != "zip" and not fails))
        S.prove("header: the temporary file becomes the output", z3.BoolVal(
            len(log) == 1 and log[0][1] == "out.bin" and log[0][0] in files and len(files) == 1))
        f = files[log[0][0]]
        S.prove("header: opened as the serializer needs", z3.BoolVal(f.mode == ("wb" if binary else "wt")))
        if not needs or nohdr:
            S.prove("no header asked for: nothing precedes the weights", z3.BoolVal(f.out == [b"payload" if binary else "payload"]))
            return
        body = f.out[-1]
        S.prove("header: the weights follow the header", z3.BoolVal(isinstance(body, (bytes, str)) and body == (b"payload" if binary else "payload")))
        h = SymBytes([])
        for b in f.out[:-1]:
            h = h + b
        shape = h.shape()
        S.prove("header: magic, architecture, rules, sizes, length, description", z3.BoolVal(
            len(shape) == 6 and shape[0] == (0xacd8cc6a).to_bytes(4, "little")
            and all(s == ("int", 4) for s in shape[1:5]) and shape[5][0] == "blob"))
        a = h.atoms
        S.prove("header: all fields unsigned", z3.BoolVal(not any(x[2] for x in a[1:5])))
        S.prove("header: architecture hash, 32 bits", a[1][3] == arch.t % (1 << 32))
        S.prove("header: rule mask unchanged", a[2][3] == rm.t)
        S.prove("header: board size mask unchanged", a[3][3] == bm.t)
        S.prove("header: the length is the byte length of the description", a[4][3] == a[5][2])
        S.prove("header: the description begins with the serializer's", z3.BoolVal(
            a[5][1].decl().name() == "append" and z3.eq(a[5][1].arg(0), desc.t)))
    S.run("export_serialization", h_header)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
