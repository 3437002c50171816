"""R21, the initialisation samples a vector quantizer still waits with (model/vq.py).

Before its codebook is initialised a quantizer collects rows of its inputs; they are no part of the
model's state_dict, so a saved run carries them separately.  Contracts: export writes exactly the rows
collected, in order, and leaves the quantizer as it was; what export wrote is accepted by load, and
after it the quantizer waits with the same rows; collecting depends only on the rows collected so far
(not on how they are batched), so the resumed quantizer initialises from the same rows.
"""
import types

import z3

from pyvc.engine import ctx
from pyvc.values import LazySeq, SymBool, SymInt, Unsupported, int_term
from pyvc.load import World, LoopSpec


I, B = z3.IntSort(), z3.BoolSort()
MOD = "model.vq"
Row = z3.DeclareSort("Row")
ROW = z3.Function("row", I, I, Row)                        # source, place -> row
FINITE = z3.Function("finite", I, I, I, B)                # source, from, to
DIFF = z3.Function("different_at", I, I, I)


def claim(label, t):
    ctx().session.prove(label, t if z3.is_expr(t) else z3.BoolVal(bool(t)))


def nat(name, low=0):
    t = ctx().fresh(I, name)
    ctx().add(t >= low)
    return t


class Device:
    def __init__(self, type):
        self.type = type

    def __eq__(self, o):
        return self.type == (o if isinstance(o, str) else getattr(o, "type", None))

    __hash__ = None


class Ghost:
    def __getattr__(self, k):
        raise Unsupported(f"{type(self).__name__}.{k}")


class T(Ghost):
    """A matrix of rows: rows a..b of a source (`src` an Int), width columns."""
    __pyvc_heap__ = False
    ndim = 2

    def __init__(self, src, a, b, width, dtype, device="cpu", contiguous=True):
        self.src, self.a, self.b, self.width, self.dtype, self.device, self.contiguous = src, a, b, width, dtype, Device(device), contiguous

    def __pyvc_len__(self):
        return SymInt(z3.simplify(self.b - self.a))

    @property
    def shape(self):
        return (SymInt(self.b - self.a), SymInt(self.width))

    def row(self, k):
        return ROW(self.src, self.a + k)

    def detach(self):
        return self

    def clone(self):
        return T(self.src, self.a, self.b, self.width, self.dtype, self.device.type)

    def contiguous_(self):
        return self

    def is_contiguous(self):
        return self.contiguous

    def is_floating_point(self):
        return True

    def to(self, *a, device=None, **k):
        if a or k:
            raise Unsupported("another conversion")
        return T(self.src, self.a, self.b, self.width, self.dtype, device.type if isinstance(device, Device) else device)

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step is not None:
            raise Unsupported("another selection of rows")
        n = self.b - self.a

        def place(v, d):
            if v is None:
                return d
            t = int_term(v)
            t = z3.If(t < 0, z3.If(t + n < 0, 0, t + n), t)
            return z3.If(t > n, n, t)
        lo, hi = place(s.start, z3.IntVal(0)), place(s.stop, n)
        return T(self.src, self.a + lo, z3.If(hi < lo, self.a + lo, self.a + hi), self.width, self.dtype, self.device.type)


class Samples(Ghost):
    """The buffer export fills: an array of rows, `content`."""
    __pyvc_heap__ = True
    ndim = 2

    def __init__(self, n, width, dtype, device):
        self.n, self.width, self.dtype, self.device = n, width, dtype, Device(device)
        self.content = ctx().fresh(z3.ArraySort(I, Row), "content")

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step is not None:
            raise Unsupported("another selection of rows")
        return View(self, int_term(s.start) if s.start is not None else z3.IntVal(0), int_term(s.stop) if s.stop is not None else self.n)


class View(Ghost):
    __pyvc_heap__ = False

    def __init__(self, of, a, b):
        self.of, self.a, self.b = of, a, b

    def copy_(self, src, non_blocking=False):
        if not isinstance(src, T):
            raise Unsupported("a copy of something else")
        claim("a batch is written to rows of the buffer, as many as it has", z3.And(self.a >= 0, self.b <= self.of.n, self.b - self.a == src.b - src.a))
        claim("the copy is complete when it returns", not non_blocking)
        k = z3.FreshConst(I, "k")
        self.of.content = z3.Lambda([k], z3.If(z3.And(self.a <= k, k < self.b), ROW(src.src, src.a + k - self.a), z3.Select(self.of.content, k)))
        return self


class Batches(LazySeq):
    """Batches that together are rows 0..total of source `src`; batch i is rows PRE(i)..PRE(i+1)."""
    __pyvc_heap__ = False

    def __init__(self, src, n, total, width, dtype):
        self.source, self.n, self.total, self.width, self.dtype = src, n, total, width, dtype
        self.pre = z3.Function("rows_before", I, I, I)
        self.added = []
        c = ctx()
        c.add(z3.And(self.P(0) == 0, self.P(n) == total))

    def P(self, i):
        return self.pre(self.source, i if z3.is_expr(i) else z3.IntVal(i))

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        a, b = self.P(i), self.P(i + 1)
        ctx().add(z3.And(a >= 0, b >= a, b <= self.total))
        return T(self.source, a, b, self.width, self.dtype)

    def append(self, x):
        self.added.append(x)

    def __getattr__(self, k):
        raise Unsupported(f"batches.{k}")


class Flag(Ghost):
    """The `inited` buffer."""
    __pyvc_heap__ = False

    def __init__(self, t):
        self.t = t

    def detach(self):
        return self

    def new_ones(self, shape):
        return Flag(z3.BoolVal(True))

    def new_full(self, shape, v):
        return Flag(v.t if isinstance(v, SymBool) else z3.BoolVal(bool(v)))


class Dummy(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return type(k, (), {})


def world(loops):
    return World(loops, stubs={n: Dummy(n) for n in ("model.ops", "model", "utils.compile_utils")}).module(MOD)


def install(m):
    import torch as real

    def equal(a, b):
        if not (isinstance(a, Flag) and isinstance(b, Flag)):
            raise Unsupported("another comparison of tensors")
        return ctx().decide(a.t == b.t)

    def empty(shape, dtype=None, device=None, **k):
        n, w = shape
        return Samples(int_term(n), int_term(w), dtype, device)

    class Torch(Ghost):
        pass
    t = Torch()
    t.equal, t.empty, t.float32 = equal, empty, real.float32
    m.torch = t
    m.Tensor = Matrix
    isinst0 = m.__dict__.get("isinstance", isinstance)

    def isinst(x, c):
        return isinstance(x, (T, Samples)) if c is Matrix else isinst0(x, c)
    m.isinstance = isinst
    base = m.__dict__["__pyvc_comp__"]

    def comp(kind, f, src, conds):
        if isinstance(src, Batches):
            probe = object.__new__(T)
            probe.__dict__.update(src=src.source, a=z3.Int("pa"), b=z3.Int("pb"), width=src.width, dtype=src.dtype, device=Device("cpu"), contiguous=True)
            v = f(probe)
            if conds is None and isinstance(v, SymInt) and z3.simplify(v.t - (probe.b - probe.a)).eq(z3.IntVal(0)):
                return Lengths(src)
            raise Unsupported("another comprehension over the batches")
        return base(kind, f, src, conds)
    m.__dict__["__pyvc_comp__"] = comp
    sum0 = m.__dict__.get("sum", sum)
    m.sum = lambda x, *a: SymInt(x.of.total) if isinstance(x, Lengths) and not a else sum0(x, *a)
    return m


class Matrix:
    pass


class Lengths:
    def __init__(self, of):
        self.of = of


def finite(x):
    """The contract of `_vq_all_finite_chunked`: whether every value of the rows is finite."""
    if isinstance(x, T):
        return ctx().decide(FINITE(x.src, x.a, x.b))
    if isinstance(x, Samples):
        if hasattr(x.__class__, "rows") or "rows" in x.__dict__:
            return ctx().decide(FINITE(x.rows[0], z3.IntVal(0), x.n))
        # the rows of source s from 0 on, if that is what the buffer holds
        k = ctx().fresh(I, "k")
        s = x.expect
        claim("what is saved are the rows waited with, in their order", z3.Implies(z3.And(0 <= k, k < x.n), z3.Select(x.content, k) == ROW(s, k)))
        return ctx().decide(FINITE(s, z3.IntVal(0), x.n))
    raise Unsupported("finiteness of something else")


def quantizer(m, dtype, convert, initialized, dim, target, batches=None, count=None, param_dtype=None):
    class Q(Ghost):
        __pyvc_heap__ = True
    for name in ("_vq_init_continuation_state", "_load_vq_init_continuation_state", "_vq_init_continuation_descriptor", "_accumulate_input_batch"):
        setattr(Q, name, m.VectorQuantize.__dict__[name])
    q = Q()
    q.inited, q.convert_to_fp32, q.dim_feature, q.codebook_size = Flag(initialized), convert, SymInt(dim), 16
    q.kmeans_sample_multiplier, q.kmeans_iter, q.use_cosine_sim, q.use_simvq = 7, 2, False, False
    e = type("Embed", (Ghost,), {})()
    e.dtype, e.device = param_dtype, Device("cuda")
    q.embed = e
    q._init_input_samples_target_per_process = SymInt(target)
    q._init_input_samples_per_process = SymInt(target)
    q._init_consensus_checked, q._inited_python = True, None
    if batches is not None:
        q._init_input_batches_this_process = batches
        q._init_input_count_this_process = SymInt(count)
    return q


def waiting(S):
    import torch as real
    NAME = MOD + ":VectorQuantize."

    def inv(L):
        b, o, s = L.batches, L.offset, L.samples
        if isinstance(b, list):
            return
        if not isinstance(s, Samples):
            raise Unsupported("the samples are gathered otherwise")
        i = L.i.t if isinstance(L.i, SymInt) else z3.IntVal(L.i)
        k = z3.Int("k!rows")
        yield "the rows of the batches so far", int_term(o) == b.P(i)
        ctx().add(z3.And(b.P(i) >= 0, b.P(i) <= b.total))
        yield "what is written so far are these rows, in their order", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < b.P(i)), z3.Select(s.content, k) == ROW(b.source, k)))

    def havoc(L):
        return [("attr", L.samples, "content", lambda v: ctx().fresh(z3.ArraySort(I, Row), "content"))]
    loops = {NAME + "_vq_init_continuation_state#0": LoopSpec(inv=inv, havoc=havoc, types={"batch": lambda v: None, "offset": lambda v: SymInt(ctx().fresh(I, "offset"))})}
    m = install(world(loops))
    m._vq_all_finite_chunked = finite
    SRC = z3.IntVal(1)

    def start(convert, pdtype):
        c = ctx()
        initialized = c.fresh(B, "initialized")
        dim, target, n, count = nat("features", 1), nat("target", 1), nat("batches"), nat("count")
        dtype = real.float32 if convert else pdtype
        c.add(z3.And(count <= target, z3.Implies(n == 0, count == 0), z3.Implies(initialized, z3.And(n == 0, count == 0))))
        c.add(FINITE(SRC, z3.IntVal(0), count))
        b = Batches(SRC, n, count, dim, dtype)
        return initialized, dim, target, n, count, dtype, b

    def roundtrip(convert, pdtype, gone):
        def go():
            c = ctx()
            initialized, dim, target, n, count, dtype, b = start(convert, pdtype)
            if gone:                                       # after initialisation the lists are deleted
                c.add(initialized)
            a = quantizer(m, dtype, convert, initialized, dim, target, None if gone else b, count, pdtype)
            before = dict(a.__dict__)
            empty0 = m.torch.empty

            def empty(*x, **k):
                s = empty0(*x, **k)
                s.expect = SRC
                return s
            m.torch.empty = empty
            try:
                state = a._vq_init_continuation_state()
            except ValueError as e:
                return claim("a waiting quantizer can be saved", False)
            finally:
                m.torch.empty = empty0
            claim("saving leaves the quantizer as it was", set(a.__dict__) == set(before) and all(a.__dict__[k] is before[k] for k in before) and not b.added)
            s = state["samples"]
            if not isinstance(s, Samples):
                raise Unsupported("other samples")
            k = c.fresh(I, "place")
            claim("the number of rows is saved", int_term(state["count"]) == count)
            claim("the saved rows are those waited with, in their order", z3.And(s.n == count, z3.Implies(z3.And(0 <= k, k < count), z3.Select(s.content, k) == ROW(SRC, k))))
            claim("the saved rows are on the CPU, of the same type", s.device == "cpu" and (s.dtype is dtype or not c.decide(count > 0)))
            # as read back: the same rows (torch.save / torch.load keep a tensor), into a new quantizer of the same run
            read = dict(state)
            read["samples"] = T(SRC, z3.IntVal(0), s.n, s.width, s.dtype)
            other = quantizer(m, dtype, convert, initialized, dim, target, None if gone else [], z3.IntVal(0), pdtype)
            try:
                other._load_vq_init_continuation_state(read)
            except ValueError:
                return claim("what was saved is accepted", False)
            if c.decide(initialized):
                claim("an initialised quantizer waits with nothing", gone or other._init_input_batches_this_process == [])
                return
            got = other._init_input_batches_this_process
            ok = isinstance(got, list) and all(isinstance(x, T) for x in got) and len(got) <= 1
            claim("the waiting rows are put back", ok)
            if not ok:
                return
            total = got[0].b - got[0].a if got else z3.IntVal(0)
            claim("the restored quantizer waits with the same rows", z3.And(int_term(other._init_input_count_this_process) == count, total == count,
                  z3.Implies(z3.And(0 <= k, k < count), got[0].row(k) == ROW(SRC, k)) if got else z3.BoolVal(True)))
            claim("they are on the quantizer's device, of the same type", all(x.device == "cuda" and x.dtype is dtype for x in got))
            claim("the flags kept beside them are read anew", other._inited_python is None)
        return go
    for convert, pdtype in ((True, real.float32), (True, real.bfloat16), (False, real.float32), (False, real.bfloat16)):
        for gone in (False, True):
            S.run(f"save and restore[converting={convert}, {pdtype}, {'initialised earlier' if gone else 'any state'}]", roundtrip(convert, pdtype, gone))

    def arbitrary(convert, pdtype, sdtype, label):
        """Any payload: accepted only if it fits this quantizer."""
        def go():
            c = ctx()
            dim, target, initialized = nat("features", 1), nat("target", 1), c.fresh(B, "initialized")
            q = quantizer(m, None, convert, initialized, dim, target, [], z3.IntVal(0), pdtype)
            rows, width, count = nat("rows"), nat("width", 1), c.fresh(I, "count")
            flagged, told = c.fresh(B, "flag"), c.fresh(I, "their_target")
            cont = c.decide(c.fresh(B, "contiguous"))
            dev = "cpu" if c.decide(c.fresh(B, "on_cpu")) else "cuda"
            d = q._vq_init_continuation_descriptor()
            d["target_samples"] = SymInt(told)
            state = {"version": m._VQ_INIT_CONTINUATION_VERSION, "descriptor": d, "dtype": str(sdtype if c.decide(c.fresh(B, "same_type")) else real.float64),
                     "inited": c.decide(flagged), "count": SymInt(count), "samples": T(SRC, z3.IntVal(0), rows, width, sdtype, dev, cont)}
            if label != "as saved":
                change = {"another version": ("version", -1), "a missing field": ("count", None), "a flag that is no flag": ("inited", 1), "a field too many": ("extra", 1),
                          "no tensor": ("samples", [1.0]), "a count that is no number": ("count", "3")}[label]
                if change[1] is None:
                    del state[change[0]]
                else:
                    state[change[0]] = change[1]
            try:
                q._load_vq_init_continuation_state(state)
            except ValueError:
                return claim("a refused payload changes nothing", z3.BoolVal(q._init_input_batches_this_process == [] and q._init_consensus_checked) if label == "as saved" else True)
            if label != "as saved":
                return claim(f"a payload with {label} is refused", False)
            claim("the payload has as many rows of the right width as it says", z3.And(rows == count, width == dim, 0 <= count, count <= target))
            claim("the payload was saved under the same settings", told == target)
            claim("the flag is the loaded model's", flagged == initialized)
            claim("an initialised quantizer has nothing to wait with", z3.Implies(initialized, count == 0))
            claim("the rows are finite", FINITE(SRC, z3.IntVal(0), rows))
            claim("the type is what the payload says and what the quantizer takes", state["dtype"] == str(sdtype) and (not convert or sdtype is real.float32))
            claim("the rows are whole", cont and dev == "cpu")
        return go
    for convert, pdtype, sdtype in ((True, real.bfloat16, real.float32), (True, real.float32, real.bfloat16), (False, real.bfloat16, real.bfloat16)):
        for label in ("as saved", "another version", "a missing field", "a field too many", "a flag that is no flag", "no tensor", "a count that is no number"):
            S.run(f"any payload[converting={convert}, {sdtype}, {label}]", arbitrary(convert, pdtype, sdtype, label))

    def collecting(enough_elsewhere):
        """Collecting depends only on the rows collected so far."""
        def go():
            c = ctx()
            initialized, dim, target, n, count, dtype, b = start(True, real.float32)
            c.add(z3.Not(initialized))
            q = quantizer(m, dtype, True, initialized, dim, target, b, count, real.float32)
            size = nat("batch", 1)
            x = T(z3.IntVal(2), z3.IntVal(0), size, dim, dtype, "cuda")
            used = []
            q.__class__._init_embed = lambda self, rows: used.append(rows)
            m.gather_object = lambda v: [*v, *([] if enough_elsewhere is None else [enough_elsewhere])]

            def cat(xs, dim=0):
                if xs is not b or dim != 0:
                    raise Unsupported("other rows are joined")
                return ("rows", list(xs.added))
            m.torch.cat = cat
            q._accumulate_input_batch(x)
            take = z3.If(size < target - count, size, target - count)
            new = b.added
            ok = len(new) <= 1 and all(isinstance(v, T) for v in new)
            claim("at most one batch is added", ok)
            if not ok:
                return
            k = c.fresh(I, "place")
            got = new[0].b - new[0].a if new else z3.IntVal(0)
            claim("the rows still missing are taken from the start of the batch", z3.And(got == take, z3.Implies(z3.And(0 <= k, k < take), new[0].row(k) == ROW(2, k)) if new else z3.BoolVal(True)))
            full = z3.And(count + take >= target, z3.BoolVal(enough_elsewhere is not False))
            claim("the codebook is initialised as soon as every process has its rows", full == z3.BoolVal(bool(used)))
            if used:
                claim("it is initialised from all collected rows in their order", len(used) == 1 and used[0][0] == "rows" and used[0][1] == new)
                claim("what was waited with is dropped", not any(k in q.__dict__ for k in ("_init_input_batches_this_process", "_init_input_count_this_process")))
            else:
                claim("otherwise the rows are kept", z3.And(z3.BoolVal(q._init_input_batches_this_process is b), int_term(q._init_input_count_this_process) == count + take))
        return go
    for other in (None, True, False):
        S.run(f"collecting rows[another process has enough: {other}]", collecting(other))


def finite_chunks(S):
    """`_vq_all_finite_chunked` looks at every value."""
    N = MOD + ":_vq_all_finite_chunked#0"
    GOOD = z3.Function("is_finite", I, B)

    class Flat(Ghost):
        def __init__(self, a, b):
            self.a, self.b = a, b

        def reshape(self, *s):
            if s != (-1,):
                raise Unsupported("another shape")
            return self

        def numel(self):
            return SymInt(self.b - self.a)

        def __getitem__(self, s):
            if not isinstance(s, slice) or s.step is not None:
                raise Unsupported("another selection")
            n = self.b - self.a
            lo, hi = int_term(s.start), int_term(s.stop) if s.stop is not None else n
            claim("a chunk starts within the values", lo >= 0)
            return Flat(self.a + lo, self.a + z3.If(hi > n, n, hi))

    class Finite(Ghost):
        def __init__(self, of):
            self.of = of

        def all(self):
            k = z3.Int("k!all")
            w = ctx().fresh(I, "one")
            t = ctx().fresh(B, "all_finite")
            ctx().add(z3.And(z3.Implies(t, z3.ForAll([k], z3.Implies(z3.And(self.of.a <= k, k < self.of.b), GOOD(k)))),
                             z3.Implies(z3.Not(t), z3.And(self.of.a <= w, w < self.of.b, z3.Not(GOOD(w))))))
            return SymBool(t)

    def inv(L):
        k = z3.Int("k!seen")
        done = L.src.at(L.i.t if isinstance(L.i, SymInt) else z3.IntVal(L.i))
        yield "every value before the chunk is finite", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < int_term(done), k < int_term(L.flat.numel())), GOOD(k)))
    m = world({N: LoopSpec(inv=inv, types={"offset": lambda v: None})})

    def go():
        n, chunk = nat("values"), nat("chunk", 1)
        m._VQ_FINITE_CHECK_CHUNK_ELEMENTS = SymInt(chunk)
        t = type("Torch", (Ghost,), {})()
        t.isfinite = Finite
        m.torch = t
        r = m._vq_all_finite_chunked(Flat(z3.IntVal(0), n))
        k = ctx().fresh(I, "k")
        kk = z3.Int("k!some")
        if r is True:
            claim("said finite: every value is", z3.Implies(z3.And(0 <= k, k < n), GOOD(k)))
        elif r is False:
            claim("said not finite: some value is not", z3.Exists([kk], z3.And(0 <= kk, kk < n, z3.Not(GOOD(kk)))))
        else:
            raise Unsupported("another answer")
    S.run("_vq_all_finite_chunked", go)


def prove(S):
    waiting(S)
    finite_chunks(S)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
