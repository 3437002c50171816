"""Symbolic values: integers, booleans, reals, opaque values and sequences."""
import builtins
import z3

from .engine import ctx, Unsupported, PathEnd, merged_bool

_xor = z3.Function("py_xor", z3.IntSort(), z3.IntSort(), z3.IntSort())
_bor = z3.Function("py_or", z3.IntSort(), z3.IntSort(), z3.IntSort())
_band = z3.Function("py_and", z3.IntSort(), z3.IntSort(), z3.IntSort())
_pow2 = z3.Function("py_pow2", z3.IntSort(), z3.IntSort())


class Sym:
    """Base of all symbolic scalars."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        raise Unsupported(f"hash of a symbolic {type(self).__name__}")

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return ctx().decide(self.t)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.And(self.t, to_bool_term(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.Or(self.t, to_bool_term(o)))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == to_bool_term(o))
        if isinstance(o, (int, SymInt)):
            return as_int(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.t))

    __hash__ = Sym.__hash__

    def _i(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __int__(self): raise Unsupported("int() of symbolic bool outside the shim")


def to_bool_term(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, SymInt):
        return v.t != 0
    if v is None:
        return z3.BoolVal(False)
    if isinstance(v, SymList):
        return v.n > 0
    if isinstance(v, (list, tuple, int, str, dict)):
        return z3.BoolVal(bool(v))
    raise Unsupported(f"not a boolean: {type(v).__name__}")


def num_term(v):
    """z3 Int term of an integer-like python value, or None."""
    if isinstance(v, SymInt):
        return v.t
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ArithRef):
        return v
    return None


def int_term(v):
    t = num_term(v)
    if t is None:
        raise Unsupported(f"not an integer: {type(v).__name__}")
    return t


def as_int(v):
    if isinstance(v, SymBool):
        return v._i()
    return v


def _real(v):
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float in real arithmetic")
        n, d = v.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
    t = num_term(v)
    return None if t is None else z3.ToReal(t)


def concrete_int(v):
    """Python int of a term that simplifies to a numeral, else None."""
    if isinstance(v, int):
        return int(v)
    if isinstance(v, SymInt):
        s = z3.simplify(v.t)
        if z3.is_int_value(s):
            return s.as_long()
    return None


class SymInt(Sym):
    __slots__ = ("bits",)

    def __init__(self, t, bits=None):
        self.t = t
        self.bits = bits  # 0 <= value < 2**bits known

    def _bin(self, o, f, rev=False):
        if isinstance(o, (SymReal, float)):
            a, b = z3.ToReal(self.t), _real(o)
            return SymReal(f(b, a) if rev else f(a, b))
        t = num_term(o)
        if t is None:
            return NotImplemented
        return SymInt(f(t, self.t) if rev else f(self.t, t))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return seq_repeat(o, self)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return seq_repeat(o, self)
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self): return SymInt(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.t >= 0, self.t, -self.t))
    def __invert__(self): return SymInt(-self.t - 1)

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.t)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.t)) if isinstance(o, SymReal) else \
            SymReal(_real(o)) / self

    def __floordiv__(self, o): return _divmod(self, o)[0]
    def __mod__(self, o): return _divmod(self, o)[1]
    def __rfloordiv__(self, o): return _divmod(o, self)[0]
    def __rmod__(self, o):
        if isinstance(o, str):
            return "<sym>"
        return _divmod(o, self)[1]
    def __divmod__(self, o): return _divmod(self, o)
    def __rdivmod__(self, o): return _divmod(o, self)

    def __pow__(self, o):
        k = concrete_int(o)
        if k is None or k < 0 or k > 8:
            raise Unsupported("symbolic exponent")
        r = z3.IntVal(1)
        for _ in builtins.range(k):
            r = r * self.t
        return SymInt(r)

    def __rpow__(self, o):
        if o == 2:
            return SymInt(pow2(self.t))
        raise Unsupported("symbolic exponent")

    def __lshift__(self, o):
        k = concrete_int(o)
        if k is None:
            return SymInt(self.t * pow2(int_term(o)))
        return SymInt(self.t * (1 << k), None if self.bits is None else self.bits + k)

    def __rlshift__(self, o):
        return SymInt(int_term(o) * pow2(self.t))

    def __rshift__(self, o):
        k = concrete_int(o)
        if k is None:
            raise Unsupported("symbolic shift amount")
        return SymInt(self.t / z3.IntVal(1 << k),
                      None if self.bits is None else max(0, self.bits - k))

    def __and__(self, o):
        k = concrete_int(o)
        if k is not None and k >= 0 and (k & (k + 1)) == 0:
            return SymInt(self.t % z3.IntVal(k + 1), k.bit_length())
        return _bitop(_band, self, o, "and")

    __rand__ = __and__

    def __xor__(self, o): return _bitop(_xor, self, o, "xor")
    __rxor__ = __xor__
    def __or__(self, o): return _bitop(_bor, self, o, "or")
    __ror__ = __or__

    def _cmp(self, o, f):
        if isinstance(o, (SymReal, float)):
            if isinstance(o, float) and o in (float("inf"), float("-inf")):
                return f(0, 1) if o > 0 else f(0, -1)
            return SymBool(f(z3.ToReal(self.t), _real(o)))
        t = num_term(o)
        if t is None:
            return NotImplemented
        return SymBool(f(self.t, t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = Sym.__hash__

    def __bool__(self):
        return ctx().decide(self.t != 0)

    def __index__(self):
        k = concrete_int(self)
        if k is None:
            # small indexes may be enumerated, one path each
            for k in range(ctx().ghost.get("enum_index", 0)):
                if ctx().decide(self.t == k):
                    return k
            raise Unsupported("a symbolic integer was used as a native index")
        return k

    def __int__(self):
        k = concrete_int(self)
        if k is None:
            raise Unsupported("native int() of a symbolic integer")
        return k

    def bit_length(self):
        raise Unsupported("bit_length")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .symbytes import SymBytes
        if byteorder != "little":
            raise Unsupported("big-endian packing")
        half = 1 << (8 * length - (1 if signed else 0))
        if not ctx().decide(z3.And(self.t >= (-half if signed else 0), self.t < half)):
            raise OverflowError("int too big to convert")
        return SymBytes([("int", length, bool(signed), self.t)])


def pow2(t):
    c = ctx()
    p = _pow2(t)
    c.add(z3.Implies(t >= 0, p >= 1))
    return p


def _bitop(f, a, b, kind):
    ta, tb = int_term(a), int_term(b)
    r = f(ta, tb)
    c = ctx()
    ba = a.bits if isinstance(a, SymInt) else (a.bit_length() if a >= 0 else None)
    bb = b.bits if isinstance(b, SymInt) else (b.bit_length() if b >= 0 else None)
    bits = None
    if ba is not None and bb is not None:
        bits = min(ba, bb) if kind == "and" else max(ba, bb)
        c.add(z3.And(r >= 0, r < (1 << bits)))
    if kind == "and":
        c.add(z3.Implies(z3.And(ta >= 0, tb >= 0), z3.And(r >= 0, r <= ta, r <= tb)))
    if kind == "or":
        c.add(z3.Implies(z3.And(ta >= 0, tb >= 0), z3.And(r >= ta, r >= tb, r <= ta + tb)))
        # disjoint bits add up: a multiple of 2**k or-ed with something below 2**k
        for x, y, by in ((ta, tb, bb), (tb, ta, ba)):
            if by is not None:
                c.add(z3.Implies(z3.And(x % (1 << by) == 0, x >= 0), r == x + y))
    return SymInt(r, bits)


def _divmod(a, b):
    if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
        raise Unsupported("float divmod")
    ta, tb = int_term(a), int_term(b)
    kb = concrete_int(b)
    if kb is not None:
        if kb == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if kb > 0:
            q, r = ta / tb, ta % tb
        else:
            q = (-ta) / (-tb)
            r = ta - q * tb
            return SymInt(q), SymInt(r)
        return SymInt(q), SymInt(r, (kb - 1).bit_length() if kb > 0 else None)
    c = ctx()
    if c.decide(tb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if c.decide(tb > 0):
        # fresh quotient/remainder with the defining facts keep the solver linear-ish
        q = c.fresh(z3.IntSort(), "q")
        r = c.fresh(z3.IntSort(), "r")
        c.add(q == ta / tb)
        c.add(r == ta % tb)
        c.add(z3.And(r >= 0, r < tb, ta == q * tb + r))
        c.ghost.setdefault("divmods", []).append((ta, tb, q, r))
        return SymInt(q), SymInt(r)
    q = (-ta) / (-tb)
    return SymInt(q), SymInt(ta - q * tb)


class SymReal(Sym):
    """A float treated as a mathematical real (recorded as an assumption)."""
    __slots__ = ()

    def _bin(self, o, f, rev=False):
        b = _real(o)
        if b is None:
            return NotImplemented
        return SymReal(f(b, self.t) if rev else f(self.t, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return SymReal(-self.t)

    def __truediv__(self, o):
        b = _real(o)
        if ctx().decide(b == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(self.t / b)

    def __rtruediv__(self, o):
        return SymReal(_real(o)) / self

    def _cmp(self, o, f):
        b = _real(o)
        if b is None:
            return NotImplemented
        return SymBool(f(self.t, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = Sym.__hash__

    def __bool__(self):
        return ctx().decide(self.t != 0)


_sorts = {}


def opaque_sort(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


class SymVal(Sym):
    """An opaque value: only equality is known."""
    __slots__ = ("pytype",)

    def __init__(self, t, pytype=None):
        self.t = t
        self.pytype = pytype

    def __eq__(self, o):
        if isinstance(o, SymVal) and o.t.sort() == self.t.sort():
            return SymBool(self.t == o.t)
        if self is o:
            return True
        raise Unsupported("comparison of an opaque value with something else")

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.t))

    __hash__ = Sym.__hash__

    def __bool__(self):
        raise Unsupported("truth value of an opaque value")


# ---------------------------------------------------------------------------
# element types
# ---------------------------------------------------------------------------

class T:
    """A value type: flat z3 components plus wrap/unwrap."""
    sorts = ()

    def fresh(self, hint="v"):
        c = ctx()
        return self.wrap([c.fresh(s, hint) for s in self.sorts])

    def wrap(self, terms):
        raise NotImplementedError

    def unwrap(self, v):
        raise NotImplementedError

    def eq(self, ta, tb):
        return z3.And([a == b for a, b in zip(ta, tb)]) if self.sorts else z3.BoolVal(True)


class TInt(T):
    sorts = (z3.IntSort(),)

    def __init__(self, lo=None, hi=None, bits=None):
        self.lo, self.hi, self.bits = lo, hi, bits

    def wrap(self, terms):
        v = SymInt(terms[0], self.bits)
        c = ctx()
        if self.lo is not None:
            c.add(terms[0] >= int_term(self.lo))
        if self.hi is not None:
            c.add(terms[0] < int_term(self.hi))
        if self.bits is not None:
            c.add(z3.And(terms[0] >= 0, terms[0] < (1 << self.bits)))
        return v

    def unwrap(self, v):
        return [int_term(v)]


class TBool(T):
    sorts = (z3.BoolSort(),)

    def wrap(self, terms):
        return SymBool(terms[0])

    def unwrap(self, v):
        return [to_bool_term(v)]


class TReal(T):
    sorts = (z3.RealSort(),)

    def wrap(self, terms):
        return SymReal(terms[0])

    def unwrap(self, v):
        return [_real(v)]


class TOpaque(T):
    def __init__(self, name="Elem", pytype=None):
        self.sorts = (opaque_sort(name),)
        self.pytype = pytype

    def wrap(self, terms):
        return SymVal(terms[0], self.pytype)

    def unwrap(self, v):
        if isinstance(v, SymVal) and v.t.sort() == self.sorts[0]:
            return [v.t]
        raise Unsupported(f"expected an opaque {self.sorts[0]}, got {type(v).__name__}")


class TTuple(T):
    def __init__(self, *parts):
        self.parts = parts
        self.sorts = tuple(s for p in parts for s in p.sorts)

    def wrap(self, terms):
        out, i = [], 0
        for p in self.parts:
            out.append(p.wrap(terms[i:i + len(p.sorts)]))
            i += len(p.sorts)
        return tuple(out)

    def unwrap(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.parts):
            raise Unsupported("tuple shape mismatch")
        return [t for p, x in zip(self.parts, v) for t in p.unwrap(x)]


class TOpt(T):
    """Optional value: a flag and the payload."""

    def __init__(self, inner):
        self.inner = inner
        self.sorts = (z3.BoolSort(),) + tuple(inner.sorts)

    def wrap(self, terms):
        if ctx().decide(terms[0]):
            return self.inner.wrap(terms[1:])
        return None

    def unwrap(self, v):
        if v is None:
            return [z3.BoolVal(False)] + [_default(s) for s in self.inner.sorts]
        return [z3.BoolVal(True)] + self.inner.unwrap(v)

    def eq(self, ta, tb):
        return z3.And(ta[0] == tb[0], z3.Implies(ta[0], self.inner.eq(ta[1:], tb[1:])))


def _default(s):
    if s == z3.IntSort():
        return z3.IntVal(0)
    if s == z3.BoolSort():
        return z3.BoolVal(False)
    if s == z3.RealSort():
        return z3.RealVal(0)
    return z3.Const(f"default_{s}", s)


class TRec(T):
    """A record built by a constructor from named fields (immutable use)."""

    def __init__(self, make, fields):
        self.make = make
        self.fields = dict(fields)
        self.sorts = tuple(s for p in self.fields.values() for s in p.sorts)

    def wrap(self, terms):
        vals, i = {}, 0
        for n, p in self.fields.items():
            vals[n] = p.wrap(terms[i:i + len(p.sorts)])
            i += len(p.sorts)
        return self.make(**vals)

    def unwrap(self, v):
        out = []
        for n, p in self.fields.items():
            out += p.unwrap(getattr(v, n))
        return out


INT, NAT, BOOL, REAL = TInt(), TInt(lo=0), TBool(), TReal()


class Undefined:
    """A local that the loop invariant says nothing about."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported(
            f"local {object.__getattribute__(self, '_n')!r} is used after the loop head but no "
            "type was given for it")

    __bool__ = __call__ = __iter__ = __len__ = __getitem__ = __eq__ = __lt__ = __le__ = _bad
    __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __mul__ = __hash__ = _bad
    __next__ = __ne__ = __rsub__ = __rmul__ = __truediv__ = __floordiv__ = __mod__ = __pow__ = __neg__ = __invert__ = _bad
    __and__ = __or__ = __xor__ = __lshift__ = __rshift__ = __rand__ = __ror__ = __rxor__ = __rtruediv__ = __rfloordiv__ = __rmod__ = _bad
    __iadd__ = __isub__ = __imul__ = __iand__ = __ior__ = __contains__ = __setitem__ = __delitem__ = __index__ = __int__ = __float__ = _bad
    __enter__ = __exit__ = __abs__ = __format__ = _bad

    def __getattr__(self, n):
        self._bad()


# ---------------------------------------------------------------------------
# sequences of unknown length
# ---------------------------------------------------------------------------

class Measure:
    """An additive function on sequences: sum over the elements of f(element)."""

    def __init__(self, name, f, nonneg=True):
        self.name, self.f, self.nonneg = name, f, nonneg


class SymList:
    """A mutable sequence of unknown length (list, tuple or deque by `kind`).

    `arrs[k][lo + i]` is component k of element i, for 0 <= i < n.  Every
    measure m carries the ghost value sum(m.f(e) for e in self).
    """

    def __init__(self, et, n, arrs, lo=None, measures=(), mvals=None, kind=list):
        self.et = et
        self.n = n
        self.arrs = list(arrs)
        self.lo = z3.IntVal(0) if lo is None else lo
        self.measures = {m.name: m for m in measures}
        self.mvals = dict(mvals or {})
        self.kind = kind
        self.version = 0

    # -- construction ----------------------------------------------------
    @classmethod
    def fresh(cls, et, hint="l", measures=(), kind=list):
        c = ctx()
        n = c.fresh(z3.IntSort(), hint + "_len")
        c.add(n >= 0)
        arrs = [c.fresh(z3.ArraySort(z3.IntSort(), s), f"{hint}_a{i}")
                for i, s in enumerate(et.sorts)]
        l = cls(et, n, arrs, None, measures, {}, kind)
        for m in measures:
            v = c.fresh(z3.IntSort(), f"{hint}_{m.name}")
            l.mvals[m.name] = v
            c.add(z3.Implies(n == 0, v == 0))
            if m.nonneg:
                c.add(v >= 0)
        return l

    @classmethod
    def of(cls, et, items, measures=(), kind=list):
        arrs = [z3.K(z3.IntSort(), _default(s)) for s in et.sorts]
        l = cls(et, z3.IntVal(0), arrs, None, measures,
                {m.name: z3.IntVal(0) for m in measures}, kind)
        for x in items:
            l._append(x)
        return l

    def snapshot(self, kind=None):
        return SymList(self.et, self.n, self.arrs, self.lo, self.measures.values(),
                       self.mvals, kind or self.kind)

    def become(self, other):
        self.n, self.arrs, self.lo = other.n, list(other.arrs), other.lo
        self.mvals = dict(other.mvals)
        self.version += 1

    def havoc(self, hint="h"):
        f = SymList.fresh(self.et, hint, list(self.measures.values()), self.kind)
        self.become(f)

    def measure(self, name):
        return SymInt(self.mvals[name])

    # -- element access ----------------------------------------------------
    def terms_at(self, i):
        return [a[self.lo + i] for a in self.arrs]

    def get(self, i):
        """Element i, 0 <= i < n already established."""
        terms = self.terms_at(i)
        c = ctx()
        for m in self.measures.values():
            if m.nonneg:
                fv = m.f(*terms)
                c.add(z3.And(fv >= 0, self.mvals[m.name] >= fv))
            c.add(z3.Implies(self.n == 1, self.mvals[m.name] == m.f(*terms)))
        return self.et.wrap(terms)

    def _index(self, i):
        t = int_term(i)
        c = ctx()
        if not c.decide(t >= 0):
            t = t + self.n
        if not c.decide(z3.And(t >= 0, t < self.n)):
            raise IndexError("index out of range")
        return t

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        return self.get(self._index(i))

    def _bound(self, v, default):
        if v is None:
            return default
        t = int_term(v)
        t = z3.If(t < 0, t + self.n, t)
        t = z3.If(t < 0, z3.IntVal(0), z3.If(t > self.n, self.n, t))
        return t

    def _slice(self, s):
        if s.step is not None and concrete_int(s.step) != 1:
            raise Unsupported("slice step")
        c = ctx()
        a = z3.simplify(self._bound(s.start, z3.IntVal(0)))
        b = z3.simplify(self._bound(s.stop, self.n))
        if not c.decide(a <= b):
            a = b
        return self._part(a, b)

    def _part(self, a, b):
        """Elements a..b (0 <= a <= b <= n), measures split additively."""
        c = ctx()
        cuts = c.ghost.setdefault(("cuts", self._key()), [])
        mv_a = self._prefix_measures(a, cuts)
        mv_b = self._prefix_measures(b, cuts)
        out = SymList(self.et, z3.simplify(b - a), self.arrs, z3.simplify(self.lo + a),
                      self.measures.values(),
                      {k: mv_b[k] - mv_a[k] for k in self.mvals}, self.kind)
        for m in self.measures.values():
            c.add(z3.Implies(a == b, mv_b[m.name] - mv_a[m.name] == 0))
        return out

    def _key(self):
        return tuple([self.lo.sexpr(), self.n.sexpr()] + [str(v) for v in self.mvals.values()]
                     + [a.hash() for a in self.arrs])

    def _prefix_measures(self, k, cuts):
        c = ctx()
        ks = z3.simplify(k)
        if z3.is_int_value(ks) and ks.as_long() == 0:
            return {m: z3.IntVal(0) for m in self.mvals}
        if z3.eq(ks, z3.simplify(self.n)):
            return dict(self.mvals)
        for kk, mv in cuts:
            if z3.eq(kk, ks):
                return mv
        mv = {}
        for m in self.measures.values():
            v = c.fresh(z3.IntSort(), f"prefix_{m.name}")
            mv[m.name] = v
            c.add(z3.Implies(ks == 0, v == 0))
            c.add(z3.Implies(ks == self.n, v == self.mvals[m.name]))
            if m.nonneg:
                c.add(z3.And(v >= 0, v <= self.mvals[m.name]))
            for kk, mw in cuts:
                c.add(z3.Implies(ks == kk, v == mw[m.name]))
                if m.nonneg:
                    c.add(z3.Implies(ks <= kk, v <= mw[m.name]))
                    c.add(z3.Implies(ks >= kk, v >= mw[m.name]))
        cuts.append((ks, mv))
        return mv

    # -- mutation ----------------------------------------------------------
    def _need(self, *kinds):
        if self.kind not in kinds:
            raise AttributeError(f"{self.kind.__name__} does not support this operation")

    def _append(self, x):
        terms = self.et.unwrap(x)
        self.arrs = [z3.Store(a, self.lo + self.n, t) for a, t in zip(self.arrs, terms)]
        for m in self.measures.values():
            self.mvals[m.name] = z3.simplify(self.mvals[m.name] + m.f(*terms))
        self.n = z3.simplify(self.n + 1)
        self.version += 1

    def append(self, x):
        self._need(list, DequeKind)
        self._append(x)

    def extend(self, other):
        self._need(list, DequeKind)
        self._extend(other)

    def _extend(self, other):
        if isinstance(other, SymList):
            cat = concat(self, other)
            self.become(cat)
        else:
            for x in other:
                self._append(x)

    def _drop_at_end(self, terms):
        for m in self.measures.values():
            self.mvals[m.name] = z3.simplify(self.mvals[m.name] - m.f(*terms))
        self.n = z3.simplify(self.n - 1)
        self.version += 1
        for m in self.measures.values():
            ctx().add(z3.Implies(self.n == 0, self.mvals[m.name] == 0))

    def pop(self, i=None):
        self._need(list, DequeKind)
        c = ctx()
        if not c.decide(self.n > 0):
            raise IndexError("pop from empty list")
        if i is None or concrete_int(i) == -1:
            v = self.get(z3.simplify(self.n - 1))
            self._drop_at_end(self.et.unwrap(v))
            return v
        if concrete_int(i) == 0:
            return self._popleft()
        raise Unsupported("pop at an inner index")

    def popleft(self):
        self._need(DequeKind)
        c = ctx()
        if not c.decide(self.n > 0):
            raise IndexError("pop from an empty deque")
        return self._popleft()

    def _popleft(self):
        v = self.get(z3.IntVal(0))
        self._drop_at_end(self.et.unwrap(v))
        self.lo = z3.simplify(self.lo + 1)
        return v

    def appendleft(self, x):
        self._need(DequeKind)
        self.lo = z3.simplify(self.lo - 1)
        terms = self.et.unwrap(x)
        self.arrs = [z3.Store(a, self.lo, t) for a, t in zip(self.arrs, terms)]
        for m in self.measures.values():
            self.mvals[m.name] = z3.simplify(self.mvals[m.name] + m.f(*terms))
        self.n = z3.simplify(self.n + 1)
        self.version += 1

    def __setitem__(self, i, x):
        self._need(list, DequeKind)
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        k = self._index(i)
        old = self.terms_at(k)
        self.get(k)
        new = self.et.unwrap(x)
        for m in self.measures.values():
            self.mvals[m.name] = self.mvals[m.name] - m.f(*old) + m.f(*new)
        self.arrs = [z3.Store(a, self.lo + k, t) for a, t in zip(self.arrs, new)]
        self.version += 1

    def __delitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.step is None:
            rest = self._slice(slice(i.stop, None))
            self.become(rest)
            return
        raise Unsupported("del on a symbolic list")

    def clear(self):
        self._need(list, DequeKind)
        self.n = z3.IntVal(0)
        self.mvals = {m: z3.IntVal(0) for m in self.mvals}
        self.version += 1

    # -- whole-list queries ------------------------------------------------
    def __bool__(self):
        return ctx().decide(self.n > 0)

    def __len__(self):
        k = z3.simplify(self.n)
        if z3.is_int_value(k):
            return k.as_long()
        raise Unsupported("native len() of a symbolic sequence")

    def length(self):
        return SymInt(self.n)

    def __iter__(self):
        i = 0
        while True:
            if not ctx().decide(self.n > i):
                return
            yield self.get(z3.IntVal(i))
            i += 1

    def __reversed__(self):
        i = 1
        while True:
            if not ctx().decide(self.n >= i):
                return
            yield self.get(self.n - i)
            i += 1

    def forall(self, p):
        """SymBool: p holds of every element (p pure)."""
        c = ctx()
        k = bound_var(c)
        rng = z3.And(k >= 0, k < self.n)
        body = merged_bool(lambda: p(self.et.wrap(self.terms_at(k))), [k], rng)
        return SymBool(z3.ForAll([k], z3.Implies(rng, body)))

    def exists(self, p):
        r = self.forall(lambda x: SymBool(z3.Not(to_bool_term(p(x)))))
        return SymBool(z3.Not(r.t))

    def __contains__(self, x):
        return bool(self.exists(lambda y: y == x))

    def seq_eq(self, o):
        if isinstance(o, SymList):
            c = ctx()
            if len(o.et.sorts) != len(self.et.sorts):
                return False
            k = bound_var(c)
            body = self.et.eq(self.terms_at(k), o.terms_at(k))
            return SymBool(z3.And(self.n == o.n, z3.ForAll(
                [k], z3.Implies(z3.And(k >= 0, k < self.n), body))))
        if isinstance(o, (list, tuple)):
            parts = [self.n == len(o)]
            for i, x in enumerate(o):
                parts.append(self.et.eq(self.terms_at(z3.IntVal(i)), self.et.unwrap(x)))
            return SymBool(z3.And(parts))
        return False

    def __eq__(self, o):
        if isinstance(o, SymList) and o.kind is not self.kind:
            return False
        if isinstance(o, (list, tuple)) and not isinstance(o, self.kind):
            return False
        return self.seq_eq(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.t))

    __hash__ = None

    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(SymList.of(self.et, o, self.measures.values(), self.kind), self)

    def __iadd__(self, o):
        self._extend(o)
        return self

    def copy(self):
        return self.snapshot()

    def index(self, x):
        raise Unsupported("index()")

    def __repr__(self):
        return "<symseq>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symseq>"


class DequeKind:
    """Stands for collections.deque."""


def bound_var(c):
    return z3.Const(f"k!{next(c.counter)}", z3.IntSort())


def concat(a, b):
    if not isinstance(b, SymList):
        out = a.snapshot()
        for x in b:
            out._append(x)
        return out
    c = ctx()
    if len(a.et.sorts) != len(b.et.sorts):
        raise Unsupported("concatenation of differently typed sequences")
    n = z3.simplify(a.n + b.n)
    arrs = []
    for x, y in zip(a.arrs, b.arrs):
        r = c.fresh(x.sort(), "cat")
        k = bound_var(c)
        c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n),
              r[k] == z3.If(k < a.n, x[a.lo + k], y[b.lo + k - a.n])), patterns=[r[k]]))
        arrs.append(r)
    names = [m for m in a.mvals]
    for m in names:
        if m not in b.mvals:
            raise Unsupported(f"measure {m} is not tracked on the appended sequence")
    return SymList(a.et, n, arrs, None, a.measures.values(),
                   {m: z3.simplify(a.mvals[m] + b.mvals[m]) for m in names}, a.kind)


def seq_repeat(seq, k):
    if len(seq) == 1 and isinstance(seq, (list, tuple)):
        x = seq[0]
        c = ctx()
        et = type_of(x)
        terms = et.unwrap(x)
        n = z3.If(k.t > 0, k.t, z3.IntVal(0))
        return SymList(et, n, [z3.K(z3.IntSort(), t) for t in terms], None, (), {},
                       list if isinstance(seq, list) else tuple)
    raise Unsupported("repetition of a sequence by a symbolic count")


def type_of(x):
    if hasattr(type(x), "__pyvc_T__"):
        return type(x).__pyvc_T__()
    if isinstance(x, (bool, SymBool)):
        return BOOL
    if isinstance(x, (int, SymInt)):
        return INT
    if isinstance(x, (float, SymReal)):
        return REAL
    if isinstance(x, SymVal):
        t = TOpaque.__new__(TOpaque)
        t.sorts, t.pytype = (x.t.sort(),), x.pytype
        return t
    if isinstance(x, tuple):
        return TTuple(*[type_of(y) for y in x])
    raise Unsupported(f"no element type for {type(x).__name__}")


class SymRange:
    """range() with symbolic bounds (step concrete and non-zero)."""

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        a, b = int_term(self.start), int_term(self.stop)
        s = concrete_int(self.step)
        if s is None:
            st = int_term(self.step)
            c = ctx()
            if not c.decide(st > 0):
                raise Unsupported("range with a non-positive symbolic step")
            q, _ = _divmod(SymInt(b - a + st - 1), SymInt(st))
            return SymInt(z3.If(b > a, q.t, z3.IntVal(0)))
        if s == 1:
            return SymInt(z3.If(b > a, b - a, z3.IntVal(0)))
        if s == -1:
            return SymInt(z3.If(a > b, a - b, z3.IntVal(0)))
        if s > 0:
            return SymInt(z3.If(b > a, (b - a + s - 1) / s, z3.IntVal(0)))
        return SymInt(z3.If(a > b, (a - b + (-s) - 1) / (-s), z3.IntVal(0)))

    def at(self, i):
        return SymInt(z3.simplify(int_term(self.start) + i * int_term(self.step)))

    def __iter__(self):
        n = self.length().t
        i = 0
        while ctx().decide(n > i):
            yield self.at(z3.IntVal(i))
            i += 1

    def __reversed__(self):
        n = self.length().t
        s = concrete_int(self.step)
        last = SymInt(int_term(self.start) + (n - 1) * s)
        return SymRange(last, SymInt(int_term(self.start) - s), -s)

    def __bool__(self):
        return ctx().decide(self.length().t > 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic range")
        t, n, c = int_term(i), self.length().t, ctx()
        if not c.decide(t >= 0):
            t = t + n
        if not c.decide(z3.And(t >= 0, t < n)):
            raise IndexError("range object index out of range")
        return self.at(t)

    def __contains__(self, x):
        if concrete_int(self.step) != 1:
            raise Unsupported("membership in a symbolic range")
        return ctx().decide(z3.And(int_term(x) >= int_term(self.start), int_term(x) < int_term(self.stop)))


class LazySeq:
    """A comprehension over a symbolic source without a filter: lazily mapped."""

    def __init__(self, src, f):
        self.src, self.f = src, f

    def length(self):
        return sym_len(self.src)

    def at(self, i):
        return self.f(seq_at(self.src, i))

    def __iter__(self):
        for x in self.src:
            yield self.f(x)

    def __bool__(self):
        return ctx().decide(int_term(self.length()) > 0)

    def __getitem__(self, i):
        t = int_term(i)
        c = ctx()
        n = int_term(self.length())
        if not c.decide(t >= 0):
            t = t + n
        if not c.decide(z3.And(t >= 0, t < n)):
            raise IndexError("index out of range")
        return self.at(t)

    def __eq__(self, o):
        raise Unsupported("comparison of a lazily mapped sequence")

    __hash__ = None


class FilterSeq:
    """A filtered comprehension over a symbolic source (only any/all/sum use)."""

    def __init__(self, src, f, cond):
        self.src, self.f, self.cond = src, f, cond

    def __iter__(self):
        for x in self.src:
            if self.cond(x):
                yield self.f(x)


def is_symseq(x):
    return isinstance(x, (SymList, SymRange, LazySeq, FilterSeq))


def sym_len(x):
    if isinstance(x, (SymList, SymRange, LazySeq)):
        n = x.length()
        k = concrete_int(n)
        return n if k is None else k
    return len(x)


def seq_at(x, i):
    """Element i (a z3 Int term known to be in range)."""
    if isinstance(x, SymList):
        return x.get(i)
    if isinstance(x, (SymRange, LazySeq)):
        return x.at(i)
    raise Unsupported(f"element access on {type(x).__name__}")
