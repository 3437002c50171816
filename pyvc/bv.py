"""Integers held as bit vectors, for code that packs and tests bit fields.

A BV is a non-negative int below 2**WIDTH. Every operation that could leave that
range asks the session for an obligation that it does not, so the wrap-around of
the machine representation is never observed.
"""
import z3

from .engine import ctx, Unsupported
from .values import Sym, SymInt, SymBool, concrete_int, int_term, _pow2

WIDTH = 72


def const(k):
    return z3.BitVecVal(k, WIDTH)


def of_small(t, hi):
    """The bit vector of an integer term known to lie in [0, hi)."""
    r = const(hi - 1)
    for k in range(hi - 2, -1, -1):
        r = z3.If(t == k, const(k), r)
    return r


def bits_of(x, hi=64):
    if isinstance(x, BV):
        return x.t
    k = concrete_int(x)
    if k is not None:
        if k < 0 or k >= 1 << WIDTH:
            raise Unsupported("constant outside the bit-vector range")
        return const(k)
    if isinstance(x, SymInt):
        s = z3.simplify(x.t)
        if s.decl().eq(_pow2):
            # 1 << e with a symbolic shift amount
            e = s.arg(0)
            if not ctx().session.prove("shift amount within the field", z3.And(e >= 0, e < hi)):
                raise Unsupported("shift amount outside the bit-vector range")
            return const(1) << of_small(e, hi)
    raise Unsupported("a mathematical integer meets a bit vector")


class BV(Sym):
    __pyvc_type__ = int
    __hash__ = Sym.__hash__

    @classmethod
    def fresh(cls, hint="bits", bits=WIDTH):
        t = ctx().fresh(z3.BitVecSort(WIDTH), hint)
        if bits < WIDTH:
            ctx().add(z3.ULT(t, const(1 << bits)))
        return cls(t)

    def bit(self, k):
        """Is bit k set (k a python int or a term in [0, 64))?"""
        if isinstance(k, int):
            return z3.Extract(k, k, self.t) == 1
        return z3.Extract(0, 0, z3.LShR(self.t, of_small(k, 64))) == 1

    def __or__(self, o): return BV(self.t | bits_of(o))
    __ror__ = __or__
    def __and__(self, o): return BV(self.t & bits_of(o))
    __rand__ = __and__
    def __xor__(self, o): return BV(self.t ^ bits_of(o))
    __rxor__ = __xor__

    def __add__(self, o):
        r = self.t + bits_of(o)
        ctx().session.prove("bit-field sum stays in range", z3.UGE(r, self.t))
        return BV(r)
    __radd__ = __add__

    def __lshift__(self, o):
        k = concrete_int(o)
        if k is None or k < 0:
            raise Unsupported("symbolic shift of a bit vector")
        r = self.t << k
        ctx().session.prove("left shift loses no bit", z3.LShR(r, k) == self.t)
        return BV(r)

    def __rshift__(self, o):
        k = concrete_int(o)
        if k is None or k < 0:
            raise Unsupported("symbolic shift of a bit vector")
        return BV(z3.LShR(self.t, k))

    def _cmp(self, o, f):
        k = concrete_int(o) if not isinstance(o, BV) else None
        if k is not None and k < 0:
            return SymBool(z3.BoolVal(f is z3.UGT or f is z3.UGE))
        return SymBool(f(self.t, bits_of(o)))

    def __lt__(self, o): return self._cmp(o, z3.ULT)
    def __le__(self, o): return self._cmp(o, z3.ULE)
    def __gt__(self, o): return self._cmp(o, z3.UGT)
    def __ge__(self, o): return self._cmp(o, z3.UGE)

    def __eq__(self, o):
        if isinstance(o, (BV, int, SymInt)):
            return SymBool(self.t == bits_of(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (BV, int, SymInt)):
            return SymBool(self.t != bits_of(o))
        return True

    def __bool__(self):
        return ctx().decide(self.t != 0)

    def __index__(self):
        raise Unsupported("a bit vector was used as a native index")

    __int__ = __index__
