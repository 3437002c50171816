"""B20 - binary game records: byte-exact decoding and the samples replayed from them."""
import ctypes as real_ctypes
import types

import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymBool, SymInt, SymReal, LazySeq, INT, BOOL, int_term, to_bool_term, concrete_int
from pyvc import shims
from pyvc.load import World, LoopSpec

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
SB, PB, DU = "dataset.simple_binary", "dataset.packed_binary", "utils.data_utils"
TRUSTED = ["where ctypes places a declared bit field (measured on this machine's ctypes from the fields the code declares, on every run), "
           "little-endian words",
           "streams: readinto fills the buffer unless the stream ends; read(n) returns 1..n bytes (n bytes for a header) unless the stream ends",
           "Enum(value) is the member of that value or ValueError; lz4 frames decompress to the bytes compressed",
           "numpy's indexing, zeros, elementwise arithmetic; real arithmetic for values and policies; exp is an uninterpreted positive function"]

BITS = z3.Function("bits", I, I, I, I)


def bits(off, lo, n):
    """Bits lo .. lo+n-1 of the little-endian bytes at off (ranges that differ are unrelated numbers)."""
    t = BITS(off + lo // 8 if lo // 8 else off, lo % 8, n)
    ctx().add(z3.And(t >= 0, t < 2 ** n))
    return t


# ---------------------------------------------------------------- the format, independently of the code
class Simple:
    """result 2, ply 9, size 5 | rule 3, move 13 | one 16-bit word per earlier move; a move is x * 32 + y."""
    def __init__(self, a):
        self.a = a
        self.result, self.ply, self.size = bits(a, 0, 2), bits(a, 2, 9), bits(a, 11, 5)
        self.rule, m = bits(a, 16, 3), bits(a, 19, 13)
        self.x, self.y = m / 32 % 32, m % 32
        self.length = 4 + 2 * self.ply

    def move(self, j):
        m = bits(self.a + 4 + 2 * j, 0, 16)
        return m / 32 % 32, m % 32


class Packed:
    """size 5, rule 3, result 4, plies 10, initial moves 10 | tag 14, entry moves 18 | 16-bit initial moves | entry moves."""
    def __init__(self, a):
        self.a = a
        self.size, self.rule, self.result = bits(a, 0, 5), bits(a, 5, 3), bits(a, 8, 4)
        self.total, self.init = bits(a, 12, 10), bits(a, 22, 10)
        self.tag, self.count = bits(a, 32, 14), bits(a, 46, 18)
        self.moves_at = a + 8 + 2 * self.init
        self.length = 8 + 2 * self.init + 4 * self.count

    def initial(self, j):
        m = bits(self.a + 8 + 2 * j, 0, 16)
        return m / 32 % 32, m % 32

    def at(self, k):
        return self.moves_at + 4 * k

    def first(self, k):
        return bits(self.at(k), 0, 1) == 1

    def last(self, k):
        return bits(self.at(k), 1, 1) == 1

    def ended(self, k):
        """Whether entry move k begins a new group."""
        return z3.Or(k == 0, self.last(k - 1))

    def bad(self, k):
        return z3.And(self.ended(k), z3.Not(self.first(k)))


def fields_of(off):
    """first, last, no evaluation, pass, 2 unused, move 10 | signed evaluation 16."""
    m, e = bits(off, 6, 10), bits(off, 16, 16)
    return dict(noeval=bits(off, 2, 1) == 1, is_pass=bits(off, 3, 1) == 1, x=m / 32 % 32, y=m % 32,
                eval=z3.If(e >= 32768, e - 65536, e))


GROUPS, START = z3.Function("groups", I, I), z3.Function("group_start", I, I)


def groups(p, k):
    """Unfold the number and start of groups after k+1 entry moves."""
    ctx().add(z3.And(GROUPS(0) == 0, GROUPS(k + 1) == GROUPS(k) + z3.If(p.ended(k), 1, 0),
                     START(k + 1) == z3.If(p.ended(k), k, START(k))))


# ---------------------------------------------------------------- stand-ins for the byte world
class Slice:
    """Bytes start .. start+n of the stream."""
    __pyvc_type__ = bytes
    __hash__ = None

    def __init__(self, start, n):
        self.start, self.n = start, n

    def __pyvc_len__(self):
        return SymInt(self.n)

    def __bool__(self):
        return ctx().decide(self.n > 0)

    def __add__(self, o):
        return joined(ctx().session, self, o)

    def __radd__(self, o):
        if o == b"":
            return self
        raise Unsupported("other bytes")


def joined(S, a, b):
    if not isinstance(b, (Slice, Chain)):
        raise Unsupported("other bytes")
    S.prove("the parts of a record follow one another", z3.Or(b.n == 0, b.start == a.start + a.n))
    return Slice(a.start, a.n + b.n)


class Chain:
    """The parts read so far: they are adjacent."""
    __pyvc_heap__ = True
    __pyvc_type__ = list

    def __init__(self, start, n):
        self.start, self.n = start, n

    def append(self, part):
        if not isinstance(part, Slice):
            raise Unsupported("another part")
        r = joined(ctx().session, self, part)
        self.n = z3.simplify(r.n)


class Stream:
    """The bytes from base to end, positioned at base + pos."""
    __pyvc_heap__ = True

    def __init__(self, base, pos, size, exact=0):
        self.base, self.pos, self.size, self.exact = base, SymInt(pos), size, exact

    def _take(self, n, full):
        c = ctx()
        n, p = int_term(n), int_term(self.pos)
        c.session.prove("no negative amount is read", n >= 0)
        left = self.size - p
        if full:
            k = z3.If(n < left, n, left)
        else:
            k = c.fresh(I, "read")
            c.add(z3.And(k >= 0, k <= n, k <= left, z3.Implies(z3.And(n > 0, left > 0), k > 0)))
        self.pos = SymInt(z3.simplify(p + k))
        return self.base + p, k

    def read(self, n):
        c = concrete_int(n)
        return Slice(*self._take(n, c is not None and c <= self.exact))

    def readinto(self, buf):
        n = sizeof(buf)
        at, k = self._take(n, True)
        object.__setattr__(buf, "_at", at)
        return SymInt(k)

    def tell(self):
        return self.pos


def extract(off, layout):
    lo, n, signed = layout
    t = bits(off, lo, n)
    if signed:
        return SymInt(z3.If(t >= 2 ** (n - 1), t - 2 ** n, t))
    return SymInt(t, n)


class CType:
    def __init__(self, real):
        self.real, self.size = real, real_ctypes.sizeof(real)

    def __mul__(self, n):
        return lambda: Array(self, int_term(n))


class Array(LazySeq):
    """A ctypes array, all zero until it is read into."""
    def __init__(self, ctype, n):
        self.ctype, self.n, self._at = ctype, n, None

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        if self._at is None:
            return SymInt(z3.IntVal(0), 8 * self.ctype.size)
        return extract(self._at + self.ctype.size * i, (0, 8 * self.ctype.size, "u" not in self.ctype.real.__name__
                                                        and "short" in self.ctype.real.__name__))


class Structure:
    def __init_subclass__(cls, **kw):
        real = type(cls.__name__, (real_ctypes.Structure,), {"_fields_": [(f[0], f[1].real, *f[2:]) for f in cls._fields_]})
        cls._size = real_ctypes.sizeof(real)
        cls._layout = {}
        for f in cls._fields_:
            x = real()
            setattr(x, f[0], -1)
            mask = int.from_bytes(bytes(x), "little")
            low = (mask & -mask).bit_length() - 1
            bits = mask.bit_length() - low
            if mask != (1 << bits) - 1 << low:
                raise Unsupported("a field that is not contiguous")
            cls._layout[f[0]] = (low, bits, getattr(x, f[0]) < 0)

    def __init__(self):
        self._at = None

    def __getattr__(self, k):
        if k.startswith("_") or k not in type(self)._layout:
            raise AttributeError(k)
        if self._at is None:
            return 0
        return extract(self._at, type(self)._layout[k])

    @classmethod
    def from_buffer_copy(cls, raw, offset=0):
        if not isinstance(raw, Slice):
            raise Unsupported("a structure from other bytes")
        off = int_term(offset)
        if ctx().decide(z3.Or(off < 0, off + cls._size > raw.n)):
            raise ValueError("Buffer size too small")
        o = cls()
        o._at = raw.start + off
        return o


def sizeof(x):
    if isinstance(x, Array):
        return SymInt(x.n * x.ctype.size)
    if isinstance(x, Structure) or isinstance(x, type) and issubclass(x, Structure):
        return x._size
    if isinstance(x, CType):
        return x.size
    raise Unsupported("sizeof something else")


def ctypes_module():
    m = types.ModuleType("ctypes")
    for n in ("c_uint8", "c_uint16", "c_uint32", "c_int8", "c_int16", "c_int32", "c_uint64", "c_int64"):
        setattr(m, n, CType(getattr(real_ctypes, n)))
    m.Structure, m.sizeof = Structure, sizeof
    return m


# ---------------------------------------------------------------- stand-ins for enums, boards, vectors
class Tok:
    """A member of an Enum, known by its value."""
    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    @property
    def value(self):
        k = concrete_int(SymInt(z3.simplify(self.t)))
        return SymInt(self.t) if k is None else k

    def __eq__(self, o):
        if not isinstance(o, Tok) or o.kind is not self.kind:
            return False
        return SymBool(self.t == o.t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.t)) if r is not False else True

    __hash__ = None


class EnumOf:
    def __init__(self, real):
        self._real = real
        self._values = [m.value for m in real]

    def valid(self, t):
        return z3.Or([t == v for v in self._values])

    def __call__(self, v):
        if isinstance(v, Tok):
            return v
        t = int_term(v)
        if not ctx().decide(self.valid(t)):
            raise ValueError("not a valid member")
        return Tok(self, t)

    def __getattr__(self, k):
        v = self._real.__dict__.get(k)
        if k in self._real.__members__:
            return Tok(self, z3.IntVal(self._real[k].value))
        if isinstance(v, types.FunctionType):
            return v
        raise AttributeError(k)


class NameOf:
    def __init__(self, tok):
        self.tok = tok


class Moves(LazySeq):
    """A list of moves; at(j) builds move j."""
    __pyvc_type__ = list
    __pyvc_heap__ = True

    def __init__(self, n, f):
        self.n, self.f_ = n, f

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        return self.f_(i)

    def copy(self):
        return Moves(self.n, self.f_)

    def append(self, m):
        n, f = self.n, self.f_
        self.f_ = lambda j: m if ctx().decide(j == n) else f(j)
        self.n = z3.simplify(n + 1)


class Grid:
    """An array of numbers of symbolic shape; fn gives the element at an index tuple."""
    def __init__(self, shape, fn):
        self.shape, self.fn = shape, fn

    def _index(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if len(key) != len(self.shape):
            raise Unsupported("a partial index")
        out = []
        for k, n in zip(key, self.shape):
            t = int_term(k)
            if not ctx().decide(t >= 0):
                t = t + n
            if not ctx().decide(z3.And(t >= 0, t < n)):
                raise IndexError("index out of bounds")
            out.append(t)
        return out

    def __setitem__(self, key, v):
        at, old = self._index(key), self.fn
        v = v.t if isinstance(v, SymReal) else z3.RealVal(v) if isinstance(v, (int, float)) else z3.ToReal(int_term(v))
        self.fn = lambda *a: z3.If(z3.And([p == q for p, q in zip(a, at)]), v, old(*a))

    def __getitem__(self, key):
        if isinstance(key, list) and all(isinstance(k, int) for k in key):
            for k in key:
                if ctx().decide(z3.Not(k < self.shape[0])) or k < 0:
                    raise Unsupported("another plane order")
            fn = self.fn

            def pick(p, *a):
                r = z3.RealVal(0)
                for j, k in enumerate(key):
                    r = z3.If(p == j, fn(z3.IntVal(k), *a), r)
                return r
            return Grid([z3.IntVal(len(key))] + self.shape[1:], pick)
        at = self._index(key)
        return SymReal(self.fn(*at))

    def copy(self):
        return Grid(self.shape, self.fn)

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], tuple) else shape
        return ("reshaped", self, [int_term(s) for s in shape])


class Vec:
    """A vector: element j is fn(j) (a Real term)."""
    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def _bin(self, o, op):
        f = self.fn
        if isinstance(o, Vec):
            g = o.fn
        else:
            v = o
            g = None
        t = None if g else (v.t if isinstance(v, SymReal) else z3.ToReal(int_term(v)) if not isinstance(v, float) else z3.RealVal(v))
        return Vec(self.n, lambda j: op(f(j), g(j) if g else t))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    __radd__, __rmul__ = __add__, __mul__

    def __getitem__(self, k):
        t = int_term(k)
        if not ctx().decide(z3.And(t >= 0, t < self.n)):
            raise IndexError("index out of bounds")
        return SymReal(self.fn(t))


EXP, WR = z3.Function("exp", R, R), z3.Function("winrate", I, R)


def real(v):
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, (float,)):
        return z3.RealVal(v)
    if isinstance(v, (bool, SymBool)):
        return z3.If(to_bool_term(v), z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(int_term(v))


class NP:
    int8 = float32 = int64 = "dtype"
    nan = "nan"

    def zeros(self, shape, dtype=None):
        shape = shape if isinstance(shape, tuple) else (shape,)
        return Grid([int_term(s) for s in shape], lambda *a: z3.RealVal(0))

    def array(self, x, dtype=None):
        if isinstance(x, (list, tuple)):
            if any(isinstance(v, str) for v in x):
                raise Unsupported("array of something else")
            ts = [real(v) for v in x]

            def fn(j):
                r = ts[-1]
                for k in range(len(ts) - 2, -1, -1):
                    r = z3.If(j == k, ts[k], r)
                return r
            v = Vec(z3.IntVal(len(ts)), fn)
            v.items = list(x)
            return v
        if isinstance(x, LazySeq) or hasattr(x, "terms_at"):
            from pyvc.values import seq_at, sym_len
            return Vec(int_term(sym_len(x)), lambda j: real(seq_at(x, j)))
        return ("scalar", x)

    def max(self, v):
        if not isinstance(v, Vec):
            raise Unsupported("max of something else")
        t = ctx().fresh(R, "max")
        ctx().ghost.setdefault("max", []).append((t, v))
        return SymReal(t)

    def sum(self, v):
        if not isinstance(v, Vec):
            raise Unsupported("sum of something else")
        t = ctx().fresh(R, "sum")
        ctx().ghost.setdefault("sum", []).append((t, v))
        return SymReal(t)

    def exp(self, v):
        if isinstance(v, Vec):
            return Vec(v.n, lambda j, f=v.fn: EXP(f(j)))
        t = EXP(real(v))
        ctx().add(t > 0)
        return SymReal(t)


# ---------------------------------------------------------------- loading
def world(loops):
    class Dummy(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return type(k, (), {})

    class Registry:
        def register(self, *a, **k):
            return lambda cls: cls
    ds = types.ModuleType("dataset")
    ds.DATASETS, ds.__path__ = Registry(), []
    stubs = {"ctypes": ctypes_module(), "dataset": ds, "torch": Dummy("torch"), "lz4": Dummy("lz4"), "lz4.frame": Dummy("lz4.frame")}
    for n in ("core", "planner", "sequential_source", "source_dataset"):
        stubs["dataset." + n] = Dummy("dataset." + n)
        setattr(ds, n, stubs["dataset." + n])
    stubs["lz4"].frame = stubs["lz4.frame"]
    w = World(loops=loops, stubs=stubs)
    du = w.module(DU)
    result, rule = EnumOf(du.Result), EnumOf(du.Rule)
    real_rule = du.Rule
    out = []
    for name in (SB, PB):
        m = w.module(name)
        m.np = NP()
        m.io = types.SimpleNamespace(BytesIO=lambda raw: Stream(raw.start, z3.IntVal(0), raw.n), RawIOBase=object)
        m.Result, m.Rule = result, rule
        base_str, base_join, base_comp = m.__dict__.get("str", str), m.__dict__["__pyvc_join__"], m.__dict__["__pyvc_comp__"]
        m.str = lambda *a: NameOf(a[0]) if a and isinstance(a[0], Tok) else base_str(*a)

        def join(sep, parts, base_join=base_join):
            if sep == b"" and isinstance(parts, Chain):
                return Slice(parts.start, parts.n)
            return base_join(sep, parts)
        m.__dict__["__pyvc_join__"] = join

        def comp(kind, f, src, cond, base=base_comp):
            if cond is None and kind == "list" and isinstance(src, LazySeq):
                return Moves(int_term(src.length()), lambda j: f(src.at(j)))
            return base(kind, f, src, cond)
        m.__dict__["__pyvc_comp__"] = comp
        out.append(m)
    du.Result = result
    return w, du, out[0], out[1], real_rule


class NameSet:
    """The configured rules."""
    ALLOWED = z3.Function("rule_allowed", I, B)

    def __contains__(self, name):
        if not isinstance(name, NameOf):
            raise Unsupported("the rules are asked for something else than a rule's name")
        return ctx().decide(self.ALLOWED(name.tok.t))


class SizeSet:
    ALLOWED = z3.Function("size_allowed", I, I, B)

    def __contains__(self, s):
        return ctx().decide(self.ALLOWED(int_term(s[0]), int_term(s[1])))

    def __iter__(self):
        raise Unsupported("listing the board sizes")


def chain_of(v, pos):
    if isinstance(v, Chain):
        return v
    if isinstance(v, list) and not v:
        return Chain(pos, z3.IntVal(0))
    raise Unsupported("another list of parts")


def read_inv(total):
    def inv(L):
        p = chain_of(L.parts, L.f.base + int_term(L.f.pos))
        yield "the parts end at the stream position", L.f.base + int_term(L.f.pos) == p.start + p.n
        yield "they begin where reading began", p.start == L.old.start
        yield "what remains completes the size", z3.And(int_term(L.remaining) == int_term(total(L)) - p.n, int_term(L.remaining) >= 0)
        yield "within the stream", z3.And(int_term(L.f.pos) <= L.f.size, int_term(L.f.pos) >= 0)
    return inv


def read_init(L, old):
    old.start = L.f.base + int_term(L.f.pos)


def read_loop(total):
    return LoopSpec(inv=read_inv(total), init=read_init, havoc=lambda L: [("attr", L.f, "pos", INT)],
                    types={"parts": lambda v: Chain(ctx().fresh(I, "from"), ctx().fresh(I, "got")), "part": lambda v: None},
                    variant=lambda L: L.remaining)


def prove(S):
    games(S)
    bytes_level(S)


def bytes_level(S):
    seen_i = {}

    # ------------------------------------------------------------ loops
    def entry_inv(L):
        i, p = int_term(L.i), ctx().ghost["record"]
        seen_i["i"] = i
        yield "one entry move per pass", int_term(getattr(L.entry, "k", 0)) == i
        yield "the stream is behind it", int_term(L.f.pos) == p.at(i) - L.f.base
        yield "within the stream", int_term(L.f.pos) <= L.f.size
        k = ctx().ghost["watched"]
        yield "no broken group so far", z3.Implies(z3.And(k >= 0, k < i), z3.Not(p.bad(k)))

    def meta_inv(L):
        i, p = int_term(L.i), ctx().ghost["record"]
        seen_i["i"] = i
        groups(p, i - 1)
        groups(p, i)
        yield "groups counted so far", int_term(L.group_count) == GROUPS(i)
        yield "whether the next move begins a group", to_bool_term(L.group_ended) == p.ended(i)
        k = ctx().ghost["watched"]
        yield "no broken group so far", z3.Implies(z3.And(k >= 0, k < i), z3.Not(p.bad(k)))

    loops = {f"{SB}:read_raw_entry#0": read_loop(lambda L: L.payload_size),
             f"{PB}:_read_exact_bytes#0": read_loop(lambda L: L.size),
             f"{PB}:read_entry#0": LoopSpec(inv=entry_inv, types={"_": lambda v: None, "emove": lambda v: None}, havoc=lambda L: [
                 ("attr", L.f, "pos", INT), ("attr", L.entry, "k", INT)]),
             f"{PB}:raw_entry_metadata#0": LoopSpec(inv=meta_inv, types={
                 "offset": lambda v: None, "entry_move": lambda v: None, "group_count": INT, "group_ended": BOOL})}
    w, du, sb, pb, _ = world(loops)

    def start(cls, exact=0):
        c = ctx()
        base, pos, size = c.fresh(I, "base"), c.fresh(I, "pos"), c.fresh(I, "size")
        c.add(z3.And(base >= 0, pos >= 0, pos <= size))
        f = Stream(base, pos, size, exact)
        p = cls(base + pos)
        c.ghost["record"], c.ghost["watched"] = p, c.fresh(I, "watched_move")
        return f, p, size - pos

    def moves_are(got, n, want):
        c = ctx()
        j = c.fresh(I, "which_move")
        c.add(z3.And(j >= 0, j < n))
        if not isinstance(got, Moves):
            raise Unsupported("another list of moves")
        S.prove("as many moves as the record holds", got.n == n)
        m = got.at(j)
        x, y = want(j)
        S.prove("each move is decoded from its word", z3.And(int_term(m.x) == x, int_term(m.y) == y))

    def simple_fields(e, p):
        result, ply, size, rule, move, position = e
        S.prove("the result of the record", z3.BoolVal(isinstance(result, Tok) and result.kind is sb.Result) if not isinstance(
            result, Tok) else result.t == p.result)
        S.prove("the rule of the record", rule.t == p.rule)
        S.prove("the number of moves of the record", int_term(ply) == p.ply)
        S.prove("the board size of the record", int_term(size) == p.size)
        S.prove("the move to predict", z3.And(int_term(move.x) == p.x, int_term(move.y) == p.y))
        moves_are(position, p.ply, p.move)

    def packed_fields(e, p):
        S.prove("the header of the game", z3.And(
            int_term(e.boardsize) == p.size, e.rule.t == p.rule, e.result.t == p.result,
            int_term(e.totalply) == p.total, int_term(e.gametag) == p.tag))
        moves_are(e.init_position, p.init, p.initial)
        S.prove("every entry move was taken in", int_term(getattr(e, "k", 0)) == p.count)
        k = ctx().ghost["watched"]
        S.prove("no broken group is accepted", z3.Implies(z3.And(k >= 0, k < p.count), z3.Not(p.bad(k))))

    def take_in(self, move):
        """The contract of EntryData._append_entry_move, proved below."""
        p, k = ctx().ghost["record"], int_term(getattr(self, "k", 0))
        if not isinstance(move, Structure) or move._at is None:
            raise Unsupported("another entry move")
        S.prove("entry moves are taken in one after the other", z3.And(
            move._at == p.at(k), z3.BoolVal(type(move) is pb.EntryMove)))
        if ctx().decide(p.bad(k)):
            ctx().ghost["bad"] = k
            raise RuntimeError("packed move group must begin with isFirst")
        self.k = SymInt(z3.simplify(k + 1))
    append = pb.EntryData._append_entry_move
    pb.EntryData._append_entry_move = take_in

    def decode(mod, cls, fields, whole):
        def h():
            c = ctx()
            if whole:
                base, n = c.fresh(I, "base"), c.fresh(I, "bytes")
                c.add(z3.And(base >= 0, n >= 0))
                p = cls(base)
                c.ghost["record"], c.ghost["watched"] = p, c.fresh(I, "watched_move")
                f, left = None, n
                call = lambda: mod.decode_raw_entry(Slice(base, n))
            else:
                f, p, left = start(cls)
                call = lambda: mod.read_entry(f)
            head = 4 if cls is Simple else 8
            bad_enum = z3.Or(z3.Not(mod.Rule.valid(p.rule)), z3.Not(mod.Result.valid(p.result)))
            try:
                e = call()
            except EOFError:
                S.prove("only a truncated record ends early", z3.Or(left < head, left < p.length))
                return
            except ValueError:
                S.prove("only undefined rules and results are refused", z3.And(left >= head, bad_enum))
                return
            except RuntimeError:
                if "bad" in c.ghost:
                    k = c.ghost["bad"]
                    S.prove("only a broken group is refused", z3.And(k >= 0, k < p.count, p.bad(k)))
                else:
                    S.prove("only trailing bytes are refused", z3.And(z3.BoolVal(whole), left > p.length))
                return
            S.prove("no truncated record is accepted", left >= p.length)
            S.prove("no undefined rule or result is accepted", z3.Not(bad_enum))
            if whole:
                S.prove("no trailing bytes are accepted", left == p.length)
            else:
                S.prove("reading ends at the following record", f.base + int_term(f.pos) == p.a + p.length)
            fields(e, p)
        return h
    for whole in (False, True):
        S.run("simple " + ("decode_raw_entry" if whole else "read_entry"), decode(sb, Simple, simple_fields, whole))
        S.run("packed " + ("decode_raw_entry" if whole else "read_entry"), decode(pb, Packed, packed_fields, whole))

    def raw(mod, cls, exact):
        def h():
            f, p, left = start(cls, exact)
            head = 4 if cls is Simple else 8
            try:
                r = mod.read_raw_entry(f)
            except EOFError:
                S.prove("only a truncated record ends early", z3.Or(left < head, left < p.length))
                return
            S.prove("no truncated record is accepted", left >= p.length)
            if not isinstance(r, Slice):
                raise Unsupported("other raw bytes")
            S.prove("exactly the bytes of the record", z3.And(r.start == p.a, r.n == p.length))
            S.prove("reading ends at the following record", f.base + int_term(f.pos) == p.a + p.length)
        return h
    S.run("simple read_raw_entry", raw(sb, Simple, 4))
    S.run("packed read_raw_entry", raw(pb, Packed, 0))

    def whole_record(cls):
        c = ctx()
        base, n = c.fresh(I, "base"), c.fresh(I, "bytes")
        c.add(z3.And(base >= 0, n >= 0))
        p = cls(base)
        c.ghost["record"], c.ghost["watched"] = p, c.fresh(I, "watched_move")
        return Slice(base, n), n, p

    def h_shape():
        r, n, p = whole_record(Simple)
        try:
            size, name = sb.raw_entry_shape(r)
        except RuntimeError:
            S.prove("only a record without its header", n < 4)
            return
        except ValueError:
            S.prove("only an undefined rule", z3.And(n >= 4, z3.Not(sb.Rule.valid(p.rule))))
            return
        S.prove("the board size of the record", int_term(size) == p.size)
        S.prove("the rule of the record", z3.BoolVal(isinstance(name, NameOf)) if not isinstance(name, NameOf) else name.tok.t == p.rule)
    S.run("simple raw_entry_shape", h_shape)

    def h_meta():
        r, n, p = whole_record(Packed)
        seen_i.clear()
        try:
            size, name, count = pb.raw_entry_metadata(r)
        except RuntimeError:
            i = seen_i.get("i")
            S.prove("only a truncated, overlong or broken game is refused",
                    z3.Or(n < 8, n != p.length, z3.And(i >= 0, i < p.count, p.bad(i)) if i is not None else z3.BoolVal(False)))
            return
        except ValueError:
            S.prove("only an undefined rule", z3.And(n >= 8, z3.Not(pb.Rule.valid(p.rule))))
            return
        S.prove("a whole game", n == p.length)
        S.prove("the board size of the game", int_term(size) == p.size)
        S.prove("the rule of the game", z3.BoolVal(isinstance(name, NameOf)) if not isinstance(name, NameOf) else name.tok.t == p.rule)
        S.prove("the number of groups of the game", int_term(count) == GROUPS(p.count))
        k = ctx().ghost["watched"]
        S.prove("no broken group is counted", z3.Implies(z3.And(k >= 0, k < p.count), z3.Not(p.bad(k))))
    S.run("packed raw_entry_metadata", h_meta)

    # ------------------------------------------------------------ the groups of a game
    class Log:
        """A list of arbitrary length whose additions are recorded."""
        __pyvc_type__ = list

        def __init__(self, n):
            self.n, self.new = n, []

        def append(self, x):
            self.new.append(x)

        def __pyvc_len__(self):
            return SymInt(self.n + len(self.new))

    class Graph:
        """The groups so far; only the last one is looked at."""
        __pyvc_type__ = list

        def __init__(self, n, last):
            self.n, self.last, self.added = n, last, 0

        def __pyvc_len__(self):
            return SymInt(self.n + self.added)

        def __bool__(self):
            return ctx().decide(self.n + self.added > 0)

        def __getitem__(self, k):
            if k != -1:
                raise Unsupported("another group than the last")
            if ctx().decide(self.n + self.added <= 0):
                raise IndexError("list index out of range")
            return self.last

        def append(self, x):
            self.last, self.added = x, self.added + 1

    def h_append():
        c = ctx()
        a, k = c.fresh(I, "record_at"), c.fresh(I, "entry_moves")
        c.add(z3.And(a >= 0, k >= 0))
        p = Packed(a)
        groups(p, k)
        c.add(z3.And(GROUPS(k) >= 0, (GROUPS(k) == 0) == (k == 0), z3.Implies(k > 0, z3.And(START(k) >= 0, START(k) < k))))
        move = pb.EntryMove()
        move._at = p.at(k)
        e = pb.EntryData(SymInt(c.fresh(I, "size")), None, None, SymInt(c.fresh(I, "total")), 0, [])
        S.prove("a game begins without groups", z3.BoolVal(isinstance(e.moves, list) and not e.moves))
        group = pb.MoveData()
        extra = set(vars(group)) - {"moves", "evals", "is_ended"}
        if extra or not all(isinstance(getattr(group, n, None), list) and not getattr(group, n) for n in ("moves", "evals")):
            raise Unsupported("a group keeps other state")
        S.prove("a group begins open", z3.BoolVal(group.is_ended is False))
        length = k - START(k)
        lm, lv = Log(length), Log(length)
        group.moves, group.evals = lm, lv
        group.is_ended = SymBool(p.ended(k))
        e.moves = g = Graph(GROUPS(k), group)
        try:
            append(e, move)
        except RuntimeError:
            S.prove("only a group without its first move is refused", p.bad(k))
            return
        S.prove("a group without its first move is refused", z3.Not(p.bad(k)))
        S.prove("the groups are counted", z3.And(z3.BoolVal(e.moves is g), g.n + g.added == GROUPS(k + 1)))
        cur = g.last
        new = cur is not group
        S.prove("a new group begins exactly after a last move", p.ended(k) == z3.BoolVal(new))
        f = fields_of(p.at(k))
        if new:
            ms, vs = cur.moves, cur.evals
            S.prove("the finished group is left alone", z3.BoolVal(group.moves is lm and group.evals is lv and not lm.new and not lv.new))
            if not isinstance(ms, list) or not isinstance(vs, list):
                raise Unsupported("a group keeps its moves elsewhere")
        else:
            S.prove("the group keeps its moves", z3.BoolVal(cur.moves is lm and cur.evals is lv))
            ms, vs = lm.new, lv.new
        S.prove("one move and one evaluation are added", z3.BoolVal(len(ms) == 1 and len(vs) == 1))
        m, v = ms[-1], vs[-1]
        S.prove("a pass or the cell of the entry", z3.If(
            f["is_pass"], z3.BoolVal(m is pb.Move.PASS) if m is pb.Move.PASS else z3.And(int_term(m.x) < 0, int_term(m.y) < 0),
            z3.BoolVal(False) if m is pb.Move.PASS else z3.And(int_term(m.x) == f["x"], int_term(m.y) == f["y"])))
        S.prove("no evaluation or that of the entry", f["noeval"] if v is None else z3.And(
            z3.Not(f["noeval"]), int_term(v) == f["eval"]))
        S.prove("the group ends with its last move", to_bool_term(cur.is_ended) == p.last(k))
        S.prove("the length of the group", length + 1 == k + 1 - START(k + 1) if not new else START(k + 1) == k)
    S.run("packed EntryData._append_entry_move", h_append)

    def h_group():
        c = ctx()
        n = c.fresh(I, "moves")
        c.add(n >= 0)
        d = pb.MoveData()
        mv = Moves(n, lambda j: ("move", j))
        ev = Moves(n, lambda j: ("eval", j))
        d.moves, d.evals = mv, ev
        S.prove("the length of a group", int_term(pb.len(d)) == n)
        k = c.fresh(I, "which")
        c.add(z3.And(k >= 0, k < n))
        a, b = d[SymInt(k)]
        S.prove("a move and its evaluation", z3.And(z3.BoolVal(a[0] == "move" and b[0] == "eval"), a[1] == k, b[1] == k))
    S.run("packed MoveData access", h_group)


# ---------------------------------------------------------------- replaying games
BX, BY, BP = z3.Function("best_x", I, I), z3.Function("best_y", I, I), z3.Function("best_pass", I, B)
EV, NOEV = z3.Function("best_eval", I, I), z3.Function("best_noeval", I, B)
IX, IY = z3.Function("init_x", I, I), z3.Function("init_y", I, I)
SEEN = z3.Function("stone_seen", I, B)


def games(S):
    w0 = z3.Int("watched_plane")     # 0: black's stones, 1: white's
    x0, y0, j0 = z3.Int("watched_x"), z3.Int("watched_y"), z3.Int("watched_ply")
    k0 = z3.Int("initial_moves")

    def ply(t):
        """Move t of the game, counting the initial ones."""
        b = t - k0
        return (z3.And(t >= k0, BP(b)), z3.If(t < k0, IX(t), BX(b)), z3.If(t < k0, IY(t), BY(b)))

    def unfold(t):
        p, x, y = ply(t)
        ctx().add(z3.And(SEEN(0) == z3.BoolVal(False), SEEN(t + 1) == z3.Or(SEEN(t), z3.And(
            z3.Not(p), t % 2 == w0, x == x0, y == y0))))

    def world_cell(n):
        ctx().add(z3.And(w0 >= 0, w0 <= 1, x0 >= 0, x0 < n, y0 >= 0, y0 < n, j0 >= 0))

    def cell01(seen):
        return z3.If(seen, z3.RealVal(1), z3.RealVal(0))

    # ------------------------------------------------------------ simple
    def simple_inv(L):
        i, n = int_term(L.i), ctx().ghost["ply"]
        unfold(i - 1)
        unfold(i)
        b = L.board_input
        mine = z3.If((n - w0) % 2 == 0, 0, 1)      # plane 0 holds the stones of the side to move
        yield "the board holds the stones played so far", b.fn(mine, y0, x0) == cell01(z3.And(i > 0, SEEN(i)))

    def fresh_grid(v):
        f = z3.Function(f"board!{next(ctx().counter)}", I, I, I, R)
        return Grid(v.shape, f)

    def init_inv(L):
        i = int_term(L.i)
        unfold(i - 1)
        unfold(i)
        yield "black and white alternate", int_term(L.current_stm_input) == z3.If(i % 2 == 0, -1, 1)
        yield "the board holds the stones played so far", L.current_board_input.fn(w0, y0, x0) == cell01(z3.And(i > 0, SEEN(i)))

    def game_inv(L):
        i = int_term(L.i)
        t = k0 + i
        unfold(t - 1)
        unfold(t)
        r = ctx().ghost["result"]
        yield "the side to move", int_term(L.current_stm_input) == z3.If(t % 2 == 0, -1, 1)
        yield "the board holds the stones played so far", L.current_board_input.fn(w0, y0, x0) == cell01(z3.And(t > 0, SEEN(t)))
        yield "the ply", int_term(L.current_ply) == t
        yield "the result of the side to move", L.current_result.t == z3.If(i % 2 == 0, r, 2 - r)
        pos = L.current_position
        if not isinstance(pos, Moves):
            raise Unsupported("another list of played moves")
        yield "the moves played so far", pos.n == t
        p, x, y = ply(j0)
        m = pos.at(j0) if ctx().decide(z3.And(j0 >= 0, j0 < t)) else None
        if m is not None:
            yield "each move played so far", z3.If(p, z3.And(int_term(m.x) < 0, int_term(m.y) < 0),
                                                   z3.And(int_term(m.x) == x, int_term(m.y) == y))
        s = ctx().ghost["selected"]
        yield "the selected move is still ahead", z3.Or(s < 0, s >= i)

    def fresh_position(v):
        c = ctx()
        fx = z3.Function(f"px!{next(c.counter)}", I, I)
        fy = z3.Function(f"py!{next(c.counter)}", I, I)
        return Moves(c.fresh(I, "played"), lambda j: pb.Move(SymInt(fx(j)), SymInt(fy(j))))

    def tok(v):
        return Tok(pb.Result, ctx().fresh(I, "result"))

    def policy_inv(L):
        i = int_term(L.i)
        g = ctx().ghost
        g["unfold"](i - 1)
        g["unfold"](i)
        yield "the mass of the moves so far", L.policy.fn(g["cell"]) == z3.If(i > 0, MASS(i), 0)
    loops = {f"{SB}:SimpleBinaryDataset._prepare_data_from_entry#0": LoopSpec(inv=simple_inv, types={
                 "board_input": fresh_grid, "i": lambda v: None, "m": lambda v: None, "current_stm_input": lambda v: None, "side_idx": lambda v: None}),
             f"{PB}:PackedBinaryDataset._process_entry#0": LoopSpec(inv=init_inv, types={
                 "current_board_input": fresh_grid, "move": lambda v: None, "current_stm_input": INT}),
             f"{PB}:PackedBinaryDataset._process_entry#1": LoopSpec(inv=game_inv, types={
                 "current_board_input": fresh_grid, "current_stm_input": INT, "current_ply": INT, "current_result": tok,
                 "current_position": fresh_position, **{n: (lambda v: None) for n in (
                     "moveidx", "movedata", "bestmove", "bestmove_eval", "game_stage", "value_target", "policy_target", "board_input", "data")}}),
             f"{PB}:PackedBinaryDataset._setup_policy_target#0": LoopSpec(inv=policy_inv, types={
                 "policy": lambda v: Grid(v.shape, z3.Function(f"policy!{next(ctx().counter)}", I, R)),
                 "i": lambda v: None, "move": lambda v: None})}
    MASS = z3.Function("mass", I, R)
    w, du, sb, pb, rules = world(loops)
    handed = []

    def post(data, **kw):
        handed.append((data, kw))
        return ("sample", len(handed))
    sb.post_process_data = pb.post_process_data = post

    def make(cls, **kw):
        d = object.__new__(cls)
        opts = dict(rules=NameSet(), boardsizes=SizeSet(), fixed_side_input=object(), fixed_board_size=object(), drop_extra=object(),
                    apply_symmetry=False, has_pass_move=False)
        opts.update(kw)
        for k, v in opts.items():
            setattr(d, k, v)
        return d

    def handed_over(d, sym, index):
        data, kw = handed[-1]
        S.prove("the configured post-processing is applied", z3.BoolVal(
            kw.get("fixed_side_input") is d.fixed_side_input and kw.get("fixed_board_size") is d.fixed_board_size
            and kw.get("drop_extra") is d.drop_extra and kw.get("symmetry_index") is index
            and (kw.get("symmetry_type") is sym if sym else not kw.get("symmetry_type"))))
        return data

    for r in rules:
        S.run(f"rule index of {r.name}", lambda r=r: S.prove("the documented index", z3.BoolVal(
            (r.value, r.index) in {(0, 0), (1, 1), (4, 2)} and str(r) == {0: "freestyle", 1: "standard", 4: "renju"}[r.value])))

    def rule_tok(m, v):
        t = Tok(m.Rule, z3.IntVal(v))
        t.index = {0: 0, 1: 1, 4: 2}[v]
        return t

    def vec_is(v, n, f):
        if not isinstance(v, Vec):
            raise Unsupported("another vector")
        S.prove("the layout of the target", v.n == n)
        for j in range(n):
            S.prove("the value of the target", v.fn(z3.IntVal(j)) == f(j))

    def size_is(a, n):
        S.prove("the board size", z3.And(a.n == 2, a.fn(z3.IntVal(0)) == z3.ToReal(n), a.fn(z3.IntVal(1)) == z3.ToReal(n)))

    def stm_is(v, t):
        S.prove("the side to move", z3.And(v.n == 1, v.fn(z3.IntVal(0)) == z3.If(t % 2 == 0, z3.RealVal(-1), z3.RealVal(1))))

    def h_prepare(value, sym):
        def h():
            c = ctx()
            handed.clear()
            n, k = c.fresh(I, "size"), c.fresh(I, "ply")
            c.add(z3.And(n >= 1, n <= 31, k >= 0, k0 == k))
            c.inputs.update(size=n, ply=k)
            world_cell(n)
            c.ghost["ply"] = k
            mx, my = c.fresh(I, "move_x"), c.fresh(I, "move_y")
            res = c.fresh(I, "result")
            c.add(z3.And(mx >= 0, mx < 32, my >= 0, my < 32, res >= 0, res <= 2))

            def at(j):
                c2 = ctx()
                c2.ghost["looked_at"] = j
                c2.add(z3.And(IX(j) >= 0, IX(j) < 32, IY(j) >= 0, IY(j) < 32))
                return sb.Move(SymInt(IX(j)), SymInt(IY(j)))
            pos = Moves(k, at)
            d = make(sb.SimpleBinaryDataset)
            rule = rule_tok(sb, value)
            ok = z3.And(NameSet.ALLOWED(z3.IntVal(value)), SizeSet.ALLOWED(n, n))
            index = object() if sym else None
            try:
                out = d._prepare_data_from_entry(Tok(sb.Result, res), SymInt(k), SymInt(n), rule, sb.Move(SymInt(mx), SymInt(my)), pos,
                                                 symmetry_type=sym, symmetry_index=index)
            except IndexError:
                j = c.ghost.get("looked_at", z3.IntVal(-1))
                S.prove("a record is refused only for a move off its board", z3.And(ok, z3.Or(
                    mx >= n, my >= n, z3.And(j >= 0, j < k, z3.Or(IX(j) >= n, IY(j) >= n)))))
                return
            if out is None:
                S.prove("only other rules and sizes are skipped", z3.Not(ok))
                return
            S.prove("other rules and sizes are skipped", ok)
            S.prove("the sample is what post-processing makes of it", z3.BoolVal(out == ("sample", 1)))
            data = handed_over(d, sym, index)
            S.prove("no move off the board is accepted", z3.And(mx < n, my < n))
            size_is(data["board_size"], n)
            S.prove("the rule index", z3.BoolVal(data["rule_index"] == rule.index))
            b = data["board_input"]
            S.prove("the layout of the board", z3.And(z3.BoolVal(len(b.shape) == 3), b.shape[0] == 2, b.shape[1] == n, b.shape[2] == n))
            unfold(k - 1)
            S.prove("own stones and the opponent's after all moves", b.fn(z3.If((k - w0) % 2 == 0, 0, 1), y0, x0) == cell01(z3.And(k > 0, SEEN(k))))
            stm_is(data["stm_input"], k)
            vec_is(data["value_target"], 3, lambda j: cell01(res == (2, 0, 1)[j]))
            p = data["policy_target"]
            S.prove("the move to predict holds all policy mass", z3.And(
                z3.BoolVal(len(p.shape) == 2), p.shape[0] == n, p.shape[1] == n,
                p.fn(y0, x0) == cell01(z3.And(y0 == my, x0 == mx))))
            S.prove("moves and ply", z3.And(z3.BoolVal(data["position"] is pos), int_term(data["ply"]) == k))
        return h
    for value, sym in ((0, None), (4, "flip")):
        S.run(f"simple sample (rule {value}, symmetry={sym})", h_prepare(value, sym))

    class Group:
        def __init__(self, i):
            self.i = i

        def __getitem__(self, k):
            if k != 0:
                raise Unsupported("another move of the group")
            i, c = self.i, ctx()
            c.ghost["looked_at"] = ("group", i)
            c.add(z3.And(BX(i) >= 0, BX(i) < 32, BY(i) >= 0, BY(i) < 32))
            m = pb.Move.PASS if c.decide(BP(i)) else pb.Move(SymInt(BX(i)), SymInt(BY(i)))
            return m, (None if c.decide(NOEV(i)) else SymInt(EV(i)))

    class Seq(LazySeq):
        def __init__(self, n, f):
            self.n, self.f_ = n, f

        def length(self):
            return SymInt(self.n)

        def at(self, i):
            return self.f_(i)

    def h_game(value, sym):
        def h():
            c = ctx()
            handed.clear()
            n, g, s, res = c.fresh(I, "size"), c.fresh(I, "groups"), c.fresh(I, "selected"), c.fresh(I, "result")
            c.add(z3.And(n >= 1, n <= 31, k0 >= 0, g >= 0, res >= 0, res <= 2))
            c.inputs.update(size=n, initial=k0, groups=g, selected=s)
            world_cell(n)
            c.ghost.update(result=res, selected=s)

            def at(j):
                ctx().add(z3.And(IX(j) >= 0, IX(j) < 32, IY(j) >= 0, IY(j) < 32))
                ctx().ghost["looked_at"] = ("initial", j)
                return pb.Move(SymInt(IX(j)), SymInt(IY(j)))
            init = Moves(k0, at)
            entry = types.SimpleNamespace(boardsize=SymInt(n), rule=rule_tok(pb, value), result=Tok(pb.Result, res), totalply=0, gametag=0,
                                          init_position=init, moves=Seq(g, Group))
            d = make(pb.PackedBinaryDataset)
            targets = []

            def value_target(result, ev, stage):
                targets.append((result, ev, stage))
                return "value"

            def policy_target(size, group):
                targets.append((size, group))
                return "policy"
            d._setup_value_target, d._setup_policy_target = value_target, policy_target
            ok = z3.And(NameSet.ALLOWED(z3.IntVal(value)), SizeSet.ALLOWED(n, n))
            index = object() if sym else None
            try:
                out = d._process_subrecord(entry, SymInt(s), sym, index)
            except IndexError:
                S.prove("only games of the wanted rule and size are replayed", ok)
                what, j = c.ghost.get("looked_at", ("initial", z3.IntVal(-1)))
                S.prove("a game is refused only for an earlier move off its board", z3.And(j >= 0, z3.And(
                    j < k0, z3.Or(IX(j) >= n, IY(j) >= n)) if what == "initial" else z3.And(
                    j < g, z3.Or(s < 0, j < s), z3.Not(BP(j)), z3.Or(BX(j) >= n, BY(j) >= n))))
                return
            S.prove("the stored game is left alone", z3.And(z3.BoolVal(entry.init_position is init), init.n == k0))
            if out is None:
                S.prove("only other rules, sizes and missing groups are skipped", z3.Or(z3.Not(ok), s < 0, s >= g))
                return
            S.prove("other rules and sizes are skipped", ok)
            S.prove("the group exists", z3.And(s >= 0, s < g))
            S.prove("the sample is what post-processing makes of it", z3.BoolVal(out == ("sample", 1)))
            data = handed_over(d, sym, index)
            t = k0 + s
            unfold(t - 1)
            size_is(data["board_size"], n)
            S.prove("the rule index", z3.BoolVal(data["rule_index"] == entry.rule.index))
            b = data["board_input"]
            S.prove("the layout of the board", z3.And(z3.BoolVal(len(b.shape) == 3), b.shape[0] == 2, b.shape[1] == n, b.shape[2] == n))
            S.prove("own stones and the opponent's before the move", b.fn(z3.If((t - w0) % 2 == 0, 0, 1), y0, x0) == cell01(z3.And(t > 0, SEEN(t))))
            stm_is(data["stm_input"], t)
            S.prove("the targets of this group", z3.BoolVal(data["value_target"] == "value" and data["policy_target"] == "policy"))
            (result, ev, stage), (size, group) = sorted(targets, key=len, reverse=True)
            S.prove("the result for the side to move", result.t == z3.If(s % 2 == 0, res, 2 - res))
            S.prove("the evaluation of the best move", NOEV(s) if ev is None else z3.And(z3.Not(NOEV(s)), int_term(ev) == EV(s)))
            S.prove("the group of this move", z3.And(group.i == s, int_term(size[0]) == n, int_term(size[1]) == n))
            S.prove("the stage of the game", real(stage) * z3.ToReal(z3.If(g > 2, g - 1, 1)) == z3.ToReal(s))
            S.prove("the ply", int_term(data["ply"]) == t)
            raw = data["raw_eval"]
            S.prove("the recorded evaluation", z3.BoolVal(raw == ("scalar", "nan")) if ev is None else int_term(raw[1]) == EV(s))
            pos = data["position"]
            S.prove("the moves played", pos.n == t)
            if c.decide(z3.And(j0 >= 0, j0 < t)):
                p, x, y = ply(j0)
                m = pos.at(j0)
                S.prove("each move played", z3.If(p, z3.And(int_term(m.x) < 0, int_term(m.y) < 0),
                                                  z3.And(int_term(m.x) == x, int_term(m.y) == y)))
        return h
    for value, sym in ((1, None), (4, "rotate")):
        S.run(f"packed sample (rule {value}, symmetry={sym})", h_game(value, sym))

    # ------------------------------------------------------------ targets
    def h_value(ev, dynamic):
        def h():
            c = ctx()
            res, e = c.fresh(I, "result"), c.fresh(I, "eval")
            lam, stage = c.fresh(R, "lambda"), c.fresh(R, "stage")
            c.add(z3.And(res >= 0, res <= 2))
            wld = [c.fresh(R, n) for n in ("win", "loss", "draw")]

            def to_wld(x):
                S.prove("the evaluation of the best move is used", int_term(x) == e)
                return Vec(z3.IntVal(3), lambda j: z3.If(j == 0, wld[0], z3.If(j == 1, wld[1], wld[2])))
            d = make(pb.PackedBinaryDataset, value_td_lambda=SymReal(lam), dynamic_value_lambda=dynamic,
                     winrate_model=types.SimpleNamespace(eval_to_wld=to_wld))
            v = d._setup_value_target(Tok(pb.Result, res), SymInt(e) if ev else None, SymReal(stage))
            f = (lam * (1 - stage) if dynamic else lam) if ev else z3.RealVal(0)
            f = z3.If(lam == 0, z3.RealVal(0), f)
            vec_is(v, 3, lambda j: cell01(res == (2, 0, 1)[j]) * (1 - f) + wld[j] * f)
        return h
    for ev in (True, False):
        for dynamic in (True, False):
            S.run(f"packed value target (evaluation={ev}, dynamic={dynamic})", h_value(ev, dynamic))

    def wr_model():
        thr = SymInt(ctx().fresh(I, "mate"))
        return types.SimpleNamespace(eval_to_winrate=lambda e: SymReal(WR(int_term(e))), eval_mate_threshold=thr)

    def policy_shape(out, has_pass, n):
        if has_pass:
            g = out
        else:
            S.prove("the layout of the policy", z3.And(z3.BoolVal(isinstance(out, tuple) and out[0] == "reshaped" and len(out[2]) == 2),
                                                       out[2][0] == n, out[2][1] == n))
            g = out[1]
        S.prove("the number of policy entries", z3.And(z3.BoolVal(len(g.shape) == 1), g.shape[0] == n * n + int(has_pass)))
        return g

    GX, GY, GP, GE = z3.Function("pv_x", I, I), z3.Function("pv_y", I, I), z3.Function("pv_pass", I, B), z3.Function("pv_eval", I, I)

    def pv(j):
        ctx().add(z3.And(GX(j) >= 0, GX(j) < 32, GY(j) >= 0, GY(j) < 32))
        return pb.Move.PASS if ctx().decide(GP(j)) else pb.Move(SymInt(GX(j)), SymInt(GY(j)))

    def hit(j, cell, n, has_pass):
        return z3.If(GP(j), z3.And(z3.BoolVal(has_pass), cell == n * n), cell == GY(j) * n + GX(j))

    def h_policy(has_pass, count):
        """count None: a group of any length, all moves evaluated; else that many moves, some without evaluation."""
        def h():
            c = ctx()
            n, cell, T = c.fresh(I, "size"), c.fresh(I, "cell"), c.fresh(R, "temperature")
            c.add(z3.And(n >= 1, n <= 31, cell >= 0, cell < n * n + int(has_pass)))
            mate = c.decide(c.fresh(B, "use_mate"))
            model = wr_model()
            d = make(pb.PackedBinaryDataset, has_pass_move=has_pass, multipv_temperature=SymReal(T), use_mate_multipv=mate,
                     winrate_model=model)
            data = pb.MoveData()
            if count is None:
                m = c.fresh(I, "moves")
                c.add(m >= 1)
                data.moves, data.evals = Seq(m, pv), Seq(m, lambda j: SymInt(GE(j)))
                missing = z3.BoolVal(False)
            else:
                m = z3.IntVal(count)
                none = [c.decide(c.fresh(B, f"noeval{j}")) for j in range(count)]
                data.moves = [pv(z3.IntVal(j)) for j in range(count)]
                data.evals = [None if none[j] else SymInt(GE(z3.IntVal(j))) for j in range(count)]
                missing = z3.BoolVal(any(none))
                if not any(none) and count > 1:
                    return          # covered by the group of any length
            j = c.fresh(I, "which")
            c.add(z3.And(j >= 0, j < m))
            c.ghost["cell"] = cell

            def unfold_mass(k):
                mx, sm = c2_max(), c2_sum()
                share = EXP((WR(GE(k)) - mx) / T) / sm
                ctx().add(MASS(0) == 0)
                ctx().add(MASS(k + 1) == z3.If(hit(k, cell, n, has_pass), share, z3.If(k > 0, MASS(k), 0)))

            def c2_max():
                got = ctx().ghost.get("max", [])
                if len(got) != 1:
                    raise Unsupported("another softmax")
                return got[0][0]

            def c2_sum():
                got = ctx().ghost.get("sum", [])
                if len(got) != 1:
                    raise Unsupported("another softmax")
                return got[0][0]
            c.ghost["unfold"] = unfold_mass
            # the off-board moves of the group, if any
            off = lambda q: z3.And(z3.Not(GP(q)), z3.Or(GX(q) >= n, GY(q) >= n))
            try:
                out = d._setup_policy_target((SymInt(n), SymInt(n)), data)
            except (RuntimeError, IndexError):
                q = z3.Int("off_board_move")
                S.prove("only a move off the board is refused", z3.Exists([q], z3.And(q >= 0, q < m, off(q))) if count is None
                        else z3.Or([off(z3.IntVal(q)) for q in range(count)]))
                return
            S.prove("no move off the board is accepted", z3.Not(off(j)))
            g = policy_shape(out, has_pass, n)
            z = z3.IntVal(0)
            single = z3.Or(m == 1, T == 0, missing, z3.And(z3.BoolVal(not mate), GE(z) >= int_term(model.eval_mate_threshold)))
            c.add(z3.Or(GP(z), GY(z) * n + GX(z) < n * n))
            one = cell01(hit(z, cell, n, has_pass))
            if c.ghost.get("sum"):
                (mx, mv), (sm, sv) = c.ghost["max"][0], c.ghost["sum"][0]
                S.prove("the largest winrate is taken over the group", z3.And(mv.n == m, mv.fn(j) == WR(GE(j))))
                S.prove("the masses are normalised over the group", z3.And(sv.n == m, sv.fn(j) == EXP((WR(GE(j)) - mx) / T)))
                S.prove("only several evaluated moves share the mass", z3.Not(single))
                S.prove("each move has its share", g.fn(cell) == MASS(m))
            else:
                S.prove("several evaluated moves share the mass", single)
                S.prove("the best move holds all policy mass", g.fn(cell) == one)
        return h
    for has_pass in (True, False):
        S.run(f"packed policy target (pass={has_pass})", h_policy(has_pass, None))
        for count in (1, 2, 3):
            S.run(f"packed policy target (pass={has_pass}, {count} moves, some without evaluation)", h_policy(has_pass, count))

    # ------------------------------------------------------------ evaluations
    wm = w.module("utils.winrate_model")
    wm.np = NP()

    def h_winrate(soft):
        def h():
            c = ctx()
            e, thr, k = c.fresh(I, "eval"), c.fresh(I, "mate"), c.fresh(I, "scale")
            c.add(z3.And(thr > 0, k > 0))
            m = wm.WinrateModel(SymInt(k), SymInt(thr), soft)
            v = real(m.eval_to_winrate(SymInt(e)))
            logistic = 1 / (1 + EXP(-z3.ToReal(e) / z3.ToReal(k)))
            S.prove("mates are certain, the rest is the logistic winrate", v == (logistic if soft else z3.If(
                e >= thr, z3.RealVal(1), z3.If(e <= -thr, z3.RealVal(0), logistic))))
            a = m.eval_to_wld(SymInt(e))
            win, loss = real(m.eval_to_winrate(SymInt(e))), real(m.eval_to_winrate(SymInt(-e)))
            vec_is(a, 3, lambda j: (win, loss, z3.If(1 - win - loss > 0, 1 - win - loss, z3.RealVal(0)))[j])
        return h
    for soft in (True, False):
        S.run(f"WinrateModel (soft={soft})", h_winrate(soft))


if __name__ == "__main__":
    from specs.common import main
    main(prove)
