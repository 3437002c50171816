"""Byte strings with symbolic parts, little-endian packing and an uninterpreted hash.

A byte string is a list of atoms: literal bytes, fixed-width integers
(("int", width, signed, term)) and blobs of unknown content (("blob", term, length term)).
"""
import builtins
import hashlib as _hashlib
import struct as _struct
import types

import z3

from .engine import ctx, Unsupported
from .values import Sym, SymInt, SymBool, int_term, concrete_int, opaque_sort

_blob_len = {}


def blob_len(sort):
    if sort not in _blob_len:
        _blob_len[sort] = z3.Function(f"len_{sort}", sort, z3.IntSort())
    return _blob_len[sort]


class SymBytes:
    __pyvc_type__ = bytes

    def __init__(self, atoms):
        out = []
        for a in atoms:
            if isinstance(a, (bytes, bytearray)):
                if not a:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] += bytes(a)
                    continue
                a = bytes(a)
            out.append(a)
        self.atoms = out

    @staticmethod
    def of(x):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, (bytes, bytearray)):
            return SymBytes([x])
        raise Unsupported(f"not bytes: {type(x).__name__}")

    def __add__(self, o):
        return SymBytes(self.atoms + SymBytes.of(o).atoms)

    def __radd__(self, o):
        return SymBytes(SymBytes.of(o).atoms + self.atoms)

    def __pyvc_len__(self):
        n = z3.IntVal(0)
        for a in self.atoms:
            n = n + (len(a) if isinstance(a, bytes) else a[1] if a[0] == "int" else a[2])
        n = SymInt(z3.simplify(n))
        k = concrete_int(n)
        return n if k is None else k

    def __len__(self):
        k = self.__pyvc_len__()
        if isinstance(k, int):
            return k
        raise Unsupported("native len of symbolic bytes")

    def shape(self):
        return tuple(a if isinstance(a, bytes) else (a[0], a[1]) if a[0] == "int" else
                     ("blob", str(a[1].sort())) for a in self.atoms)

    def args(self):
        return [a[3] if a[0] == "int" else a[1] for a in self.atoms if not isinstance(a, bytes)]

    def __eq__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            o = SymBytes.of(o)
            if self.shape() == o.shape():
                return SymBool(z3.And([x == y for x, y in zip(self.args(), o.args())] or [z3.BoolVal(True)]))
            raise Unsupported("comparison of differently shaped byte strings")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.t))

    __hash__ = None


def sym_bytes(hint="blob"):
    c = ctx()
    t = c.fresh(opaque_sort("Blob"), hint)
    n = blob_len(t.sort())(t)
    c.add(n >= 0)
    c.add(n < (1 << 31))
    return SymBytes([("blob", t, n)])


class SymStr:
    """A str of unknown content."""
    __pyvc_type__ = str

    def __init__(self, t):
        self.t = t

    @staticmethod
    def fresh(hint="str"):
        return SymStr(ctx().fresh(opaque_sort("Str"), hint))

    def encode(self, *a):
        c = ctx()
        n = blob_len(self.t.sort())(self.t)
        c.add(n >= 0)
        c.add(n < (1 << 31))
        return SymBytes([("blob", self.t, n)])

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return SymBool(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.t))

    def __add__(self, o):
        f = z3.Function(f"concat_{o!r}", self.t.sort(), self.t.sort())
        return SymStr(f(self.t))

    __hash__ = None


_WIDTH = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
          "q": (8, True), "Q": (8, False)}


def pack(fmt, *vals):
    if not builtins.any(isinstance(v, Sym) for v in vals):
        return _struct.pack(fmt, *vals)
    f = fmt
    if f[0] not in "<":
        raise Unsupported("struct format without '<'")
    f = f[1:]
    if builtins.any(ch not in _WIDTH for ch in f) or len(f) != len(vals):
        raise Unsupported(f"struct format {fmt}")
    atoms = []
    c = ctx()
    for ch, v in zip(f, vals):
        w, signed = _WIDTH[ch]
        if isinstance(v, Sym) and concrete_int(v) is None:
            t = int_term(v)
            lo, hi = (-(1 << (8 * w - 1)), 1 << (8 * w - 1)) if signed else (0, 1 << (8 * w))
            if not c.decide(z3.And(t >= lo, t < hi)):
                raise _struct.error("argument out of range")
            atoms.append(("int", w, signed, t))
        else:
            atoms.append(_struct.pack("<" + ch, concrete_int(v)))
    return SymBytes(atoms)


class FakeStructObj:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)
        self._n = _struct.Struct(fmt)

    def pack(self, *vals):
        return pack(self.format, *vals)

    def __getattr__(self, n):
        return getattr(self._n, n)


def struct_module():
    m = types.ModuleType("struct")
    m.__dict__.update({k: getattr(_struct, k) for k in dir(_struct) if not k.startswith("__")})
    m.pack = pack
    m.Struct = FakeStructObj
    return m


_hash_fn = {}


class Digest:
    """The digest of a byte string with symbolic parts."""

    def __init__(self, data, key, cut=None):
        self.data, self.key, self.cut = data, key, cut

    def __getitem__(self, s):
        return Digest(self.data, self.key, (s.start, s.stop, s.step))

    def __pyvc_from_bytes__(self, order):
        if self.cut not in ((None, 8, None), (0, 8, None)):
            raise Unsupported("unexpected part of a digest")
        sh = (self.key, order, self.data.shape())
        args = self.data.args()
        if sh not in _hash_fn:
            _hash_fn[sh] = z3.Function(f"hash_{len(_hash_fn)}", *[a.sort() for a in args], z3.IntSort())
        t = _hash_fn[sh](*args) if args else z3.Const(f"hash_const_{sorted(map(str, [sh]))}", z3.IntSort())
        ctx().add(z3.And(t >= 0, t < (1 << 64)))
        return SymInt(t, 64)


class FakeHash:
    def __init__(self, data, key):
        self.data, self.key = SymBytes.of(data), key

    def copy(self):
        return FakeHash(self.data, self.key)

    def update(self, d):
        self.data = self.data + d

    def digest(self):
        return Digest(self.data, self.key)


def hashlib_module():
    m = types.ModuleType("hashlib")
    m.__dict__.update({k: getattr(_hashlib, k) for k in dir(_hashlib) if not k.startswith("__")})

    def blake2b(data=b"", **kw):
        return FakeHash(data, tuple(sorted(kw.items())))
    m.blake2b = blake2b
    return m
